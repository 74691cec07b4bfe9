------------------------------- MODULE Optim --------------------------------
(* Optimizers: the equations of one update, and the bookkeeping around them.

   An optimizer is a record [kind, h (hyper-parameters as rationals <<n, d>>), t (updates so
   far), sc (learning-rate scaling), l2 (weight decay), cl (clipping threshold)].
   A parameter's numbers are sequences of integers at scale 2^20.                        *)
EXTENDS Fix20, TLC

Kinds == {"sgd", "mom", "adam"}
StatsOf(kind) == CASE kind = "sgd" -> {}
                   [] kind = "mom" -> {"MomentumSGD.m"}
                   [] kind = "adam" -> {"Adam.m1", "Adam.m2"}

Anything == <<-2000000100, 2000000100>>
OneMinus(q) == <<q[2] - q[1], q[2]>>
TimesQ(p, q) == <<p[1] * q[1], p[2] * q[2]>>

\* weight decay: the gradient as the rest of the update sees it
Decayed(o, v, g) == IF o.l2[1] = 0 THEN g ELSE Add(g, Times(v, o.l2))

\* the joint norm of all decayed gradients (a sequence per parameter), in a unit that fits
Largest(a, x) == LET m == IF -x[1] > x[2] THEN -x[1] ELSE x[2] IN IF m > a THEN m ELSE a
Count(G) == FoldLeft(LAMBDA a, q : a + Len(q), 0, G)
Unit(G) == IF Count(G) <= 25 /\ FoldLeft(LAMBDA a, q : FoldLeft(Largest, a, q), 0, G) <= 8 * One THEN 1 ELSE 16
InUnit(u, a) == IF u = 1 THEN a ELSE <<a[1] \div u, a[2] \div u + 1>>
Norm(u, G) == Root(SumIv([i \in DOMAIN G |-> SumIv([j \in DOMAIN G[i] |-> Sq(InUnit(u, G[i][j]))])]))

\* clipping: what happens to one gradient component, for the joint norm N in unit u
Clipped(o, u, N, g) ==
  IF o.cl[1] = 0 THEN g
  ELSE IF g = Pt(0) THEN g
  ELSE LET thr == InUnit(u, Times(Pt(One), o.cl))
           scaled == Mul(g, Div(thr, <<IF N[1] < 1 THEN 1 ELSE N[1], IF N[2] < 1 THEN 1 ELSE N[2]>>))
       IN IF N[1] > thr[2] + 4 THEN scaled
          ELSE IF N[2] + 4 < thr[1] THEN g
          ELSE Join(g, scaled)

\* bias corrections of the adaptive optimizer
Corrections(o) ==
  IF o.kind # "adam" THEN <<>>
  ELSE <<Sub(Pt(One), PowQ(o.h.beta1, o.t + 1)), Sub(Pt(One), PowQ(o.h.beta2, o.t + 1))>>
\* one component: the new value and the new statistics, given the clipped gradient
Step(o, c, v, g, st) ==
  CASE o.kind = "sgd" ->
         [v |-> Sub(v, Times(g, TimesQ(o.sc, o.h.eta))), st |-> <<>>]
    [] o.kind = "mom" ->
         LET m == Sub(Times(st["MomentumSGD.m"], o.h.momentum), Times(g, TimesQ(o.sc, o.h.eta)))
         IN [v |-> Add(v, m), st |-> ("MomentumSGD.m" :> m)]
    [] o.kind = "adam" ->
         LET m1 == Add(Times(st["Adam.m1"], o.h.beta1), Times(g, OneMinus(o.h.beta1)))
             m2 == Pos(Add(Times(st["Adam.m2"], o.h.beta2), Times(Sq(g), OneMinus(o.h.beta2))))
             den == Add(Div(Root(m2), Root(c[2])), Times(Pt(One), o.h.eps))
             d == <<IF den[1] < 1 THEN 1 ELSE den[1], IF den[2] < 1 THEN 1 ELSE den[2]>>
             num == Times(Div(m1, c[1]), TimesQ(o.sc, o.h.alpha))
             still == g = Pt(0) /\ st["Adam.m1"] = Pt(0)
             far == d[1] <= 16 \/ Largest(0, num) \div 1000 >= d[1]       \* out of range: not decided
         IN [v |-> IF still THEN v ELSE IF far THEN Anything ELSE Sub(v, Div(num, d)),
             st |-> ("Adam.m1" :> m1) @@ ("Adam.m2" :> m2)]

-----------------------------------------------------------------------------
(* Bookkeeping.  World: os (optimizers) and ps (parameters: [v, g, st]) with exact contents
   (bit patterns); st maps the names of statistics to their contents.                     *)
Configured(o, p) == StatsOf(o.kind) \subseteq DOMAIN p.st
Zeros(n) == [i \in 1 .. n |-> 0]
IsZero(x) == x = 0 \/ x = -1 - 2147483647                \* +0 or -0
Configure(o, p) == [p EXCEPT !.st = [s \in DOMAIN p.st \cup StatsOf(o.kind) |->
                                        IF s \in DOMAIN p.st THEN p.st[s] ELSE Zeros(Len(p.v))]]
CanUpdate(o, P, ps) == \A i \in P : Configured(o, ps[i])
\* what an update of o may make of a parameter
Updated(o, p, q) ==
  /\ DOMAIN q.st = DOMAIN p.st
  /\ Len(q.v) = Len(p.v) /\ Len(q.g) = Len(p.g)
  /\ \A j \in DOMAIN q.g : IsZero(q.g[j])
  /\ \A s \in DOMAIN p.st : s \notin StatsOf(o.kind) => q.st[s] = p.st[s]
SettingOk(c) == c \in {"q", "negzero"}                     \* not negative, not NaN

-----------------------------------------------------------------------------
(* Identities of the equations, on a small domain. *)
Domain == {-(2 * One), -(One \div 2), 0, One \div 4, One}
Sample(kind, h) == [kind |-> kind, h |-> h, t |-> 0, sc |-> <<1, 1>>, l2 |-> <<0, 1>>, cl |-> <<0, 1>>]
Overlap(a, b) == a[1] <= b[2] /\ b[1] <= a[2]
\* without momentum, momentum descent is plain descent
MomentumZero == \A v, g \in Domain :
   LET p == Step(Sample("sgd", [eta |-> <<3, 16>>]), <<>>, Pt(v), Pt(g), <<>>)
       q == Step(Sample("mom", [eta |-> <<3, 16>>, momentum |-> <<0, 16>>]), <<>>, Pt(v), Pt(g), ("MomentumSGD.m" :> Pt(One)))
   IN Overlap(p.v, q.v)
\* the first adaptive step is alpha in the direction of the gradient, whatever the rates
AdamFirst == \A g \in Domain \ {0}, b1 \in {0, 8, 15}, b2 \in {0, 8, 15} :
   LET o == Sample("adam", [alpha |-> <<1, 16>>, beta1 |-> <<b1, 16>>, beta2 |-> <<b2, 16>>, eps |-> <<0, 16>>])
       r == Step(o, Corrections(o), Pt(0), Pt(g), ("Adam.m1" :> Pt(0)) @@ ("Adam.m2" :> Pt(0)))
       want == IF g > 0 THEN -(One \div 16) ELSE One \div 16
   IN r.v[1] <= want /\ want <= r.v[2] /\ r.v[2] - r.v[1] < 400
\* clipped gradients have at most the threshold as their joint norm, in the same direction
ClipBound == \A x, y \in Domain :
   LET o == [Sample("sgd", [eta |-> <<1, 1>>]) EXCEPT !.cl = <<3, 4>>]
       N == Norm(1, <<<<Pt(x)>>, <<Pt(y)>>>>)
       M == Norm(1, <<<<Clipped(o, 1, N, Pt(x))>>, <<Clipped(o, 1, N, Pt(y))>>>>)
   IN M[1] <= (3 * One) \div 4
=============================================================================
