-------------------------------- MODULE Rand --------------------------------
(* Random tensors, initialisers and dropout, given a source of draws; and how often draws of
   the built-in source may fall where.

   A call on a source is [dist, p, n, from, m]: n draws with parameters p, which are the numbers
   from, from + 1, ..., or, for "bernoulli", the bits m.  Parameters and results of the built-in
   source are keys: integers in the order of the floats.                                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC

RECURSIVE Product(_)
Product(q) == IF q = <<>> THEN 1 ELSE q[1] * Product(Tail(q))
SizeOf(s) == Product(s.d) * s.b
Dim(s, i) == IF i < Len(s.d) THEN s.d[i + 1] ELSE 1
RECURSIVE Sum(_)
Sum(q) == IF q = <<>> THEN 0 ELSE q[1] + Sum(Tail(q))
RECURSIVE Concat(_)
Concat(q) == IF q = <<>> THEN <<>> ELSE q[1] \o Concat(Tail(q))
Drawn(calls) == Sum([i \in DOMAIN calls |-> calls[i].n])
Bits(calls) == Concat([i \in DOMAIN calls |-> calls[i].m])

\* ---- who may be filled ----
Constant == "constant"
MayFill(route, dist, s, allocated) ==
  /\ allocated = 0
  /\ dist = "xavier" => Len(s.d) <= 2
  /\ route = "param" => s.b = 1
Kind(dist) == IF dist = "xavier" THEN "uniform" ELSE dist

\* the bound b (scale 2^12) of the fan-based initialiser with scale c (scale 4): b^2 (m + n) = 6 c^2
FanBound(b, c, fan) ==
  LET want == 6 * c * c * 1048576 IN b > 0 /\ (b - 1) * (b - 1) * fan <= want /\ want <= (b + 1) * (b + 1) * fan

\* the whole tensor is filled with consecutive draws of the right kind, all of them new
FilledOk(e, next) ==
  LET n == SizeOf(e.want) IN
  /\ e.s = e.want
  /\ IF e.dist = Constant
     THEN e.calls = <<>> /\ e.res = [i \in 1 .. n |-> e.p[1]]
     ELSE /\ Drawn(e.calls) = n
          /\ \A i \in DOMAIN e.calls :
               /\ e.calls[i].dist = Kind(e.dist)
               /\ IF e.dist = "xavier"
                  THEN /\ e.calls[i].p[1] = -e.calls[i].p[2]
                       /\ FanBound(e.b12, e.s4, Dim(e.want, 0) + Dim(e.want, 1))
                  ELSE e.calls[i].p = e.p
          /\ e.res = (IF e.dist = "bernoulli" THEN Bits(e.calls) ELSE [i \in 1 .. n |-> next + i - 1])
  /\ e.g = (IF e.route = "param" THEN [i \in 1 .. n |-> 0] ELSE <<>>)
DrawOk(e, next) ==
  /\ e.from = next
  /\ IF MayFill(e.route, e.dist, e.want, e.pre) /\ (e.fail = 0 \/ e.dist = Constant)
     THEN e.ok = 1 /\ FilledOk(e, next)
     ELSE e.ok = 0 /\ e.kept = 1

\* ---- dropout with rate r/8: kept elements are divided by what is kept on average ----
MaskAt(s, dim, pos) ==
  IF dim < 0 THEN pos
  ELSE LET lower == Product([i \in 1 .. (IF dim < Len(s.d) THEN dim ELSE Len(s.d)) |-> s.d[i]])
       IN (pos % lower) + (pos \div (lower * Dim(s, dim))) * lower
Scaled(y, x, keep, rate) ==
  IF keep THEN LET d == y * (8 - rate) - x * 131072 IN d <= 64 /\ d >= -64 ELSE y = 0
DropOk(e) ==
  LET n == SizeOf(e.s)
      m == Bits(e.calls)
      bit == IF \A i \in DOMAIN e.calls : e.calls[i].p = <<e.p[1]>> THEN 1 ELSE 0
      keep(pos) == m[MaskAt(e.s, e.dim, pos) + 1] = bit
  IN /\ \A i \in DOMAIN e.calls : e.calls[i].dist = "bernoulli" /\ e.calls[i].p = <<IF bit = 1 THEN e.p[1] ELSE e.p[2]>>
     /\ Drawn(e.calls) = (IF e.dim < 0 THEN n ELSE n \div Dim(e.s, e.dim))
     /\ Len(e.y) = n /\ e.y2 = e.y
     /\ \A i \in 1 .. n : Scaled(e.y[i], e.x[i], keep(i - 1), e.rate)
     /\ \A i \in DOMAIN e.gy : Scaled(e.gx[i], e.gy[i], keep(i - 1), e.rate)

\* ---- the built-in source ----
\* c of n draws fell where q/64 of them should: within seven standard deviations
Plausible(c, n, q) ==
  LET d == 64 * c - n * q IN
  IF q = 0 THEN c = 0 ELSE IF q = 64 THEN c = n
  ELSE d <= 46000 /\ d >= -46000 /\ d * d <= 49 * n * q * (64 - q)
\* sixteen equally probable bins; a bit is in the first or the last
Q(dist, q, i) == IF dist = "bernoulli" THEN (IF i = 1 THEN 64 - q ELSE IF i = 16 THEN q ELSE 0) ELSE 4
\* pairs: four times four bins, q is a multiple of eight
Q2(dist, q, i) ==
  IF dist = "bernoulli"
  THEN LET p(k) == IF k = 0 THEN 8 - q \div 8 ELSE IF k = 3 THEN q \div 8 ELSE 0
       IN p((i - 1) \div 4) * p((i - 1) % 4)
  ELSE 4
Inside(dist, lo, hi, p) ==
  CASE dist = "uniform" -> p[1] <= lo /\ hi < p[2]
    [] dist = "lognormal" -> lo > 0
    [] OTHER -> TRUE
StatOk(e) ==
  /\ \A j \in 1 .. 2 :
       /\ e.got[j] = e.n /\ e.len[j] = e.n /\ e.other[j] = 0
       /\ IF e.xavier = 1 THEN e.lo[j] >= e.p[1] - 2 /\ e.hi[j] <= e.p[2] + 2 ELSE Inside(e.dist, e.lo[j], e.hi[j], e.p)
       /\ Sum(e.bins[j]) = e.n
       /\ \A i \in 1 .. 16 : Plausible(e.bins[j][i], e.n, Q(e.dist, e.q, i))
  \* independence: of neighbours, of distant elements, of two results
  /\ \A j \in 1 .. 3 : \A i \in 1 .. 16 : Plausible(e.pairs[j][i], Sum(e.pairs[j]), Q2(e.dist, e.q, i))
  /\ Sum(e.pairs[3]) = e.n /\ 3 * Sum(e.pairs[1]) > e.n /\ 3 * Sum(e.pairs[2]) > e.n
  /\ e.distinct < 0 \/ e.dist = "bernoulli" \/ 20 * e.distinct >= 19 * e.n
EdgeOk(e) ==
  /\ e.kept = 1
  /\ IF e.bad = 1 THEN e.ok = 0
     ELSE /\ e.ok = 1 /\ Len(e.res) = e.n
          /\ \A i \in 1 .. e.n :
               CASE e.dist = "bernoulli" -> /\ e.res[i] \in {0, e.one}
                                            /\ e.p[1] = 0 => e.res[i] = 0
                                            /\ e.p[1] = e.one => e.res[i] = e.one
                 [] e.dist = "uniform" -> e.p[1] <= e.res[i] /\ e.res[i] < e.p[2]
                 [] OTHER -> e.p[2] = 0 => e.res[i] = e.p[1]
=============================================================================
