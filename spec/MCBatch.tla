------------------------------- MODULE MCBatch -------------------------------
(* The tables of Tensors obey the law of Batch: every operation of the list, on all small shapes
   and every pattern of batch sizes, is compared with the same table applied to each sample.
   Pattern = "shared" lets an operand of one sample be used by all; with Pattern = "first" a
   shared operand would only reach sample 0, and Law fails.                                  *)
EXTENDS Tensors, Batch, Json

CONSTANTS Ops, Batches, Dims, Pattern
VARIABLES cfg
DimsA == {<<>>, <<2>>, <<2, 2>>, <<2, 1, 2>>}
DimsB == DimsA \cup {<<3>>, <<1, 2>>, <<2, 3>>, <<3, 2>>, <<2, 2, 2>>, <<1, 3, 2>>}
vars == <<cfg>>
None == [op |-> "none"]

Cfg(op, u, c, S) == [op |-> op, u |-> u, c |-> c, S |-> S]
Pairs(d1, d2) == {<<Sh(d1, b1), Sh(d2, b2)>> : b1 \in Batches, b2 \in Batches}
Ids(n) == {<<i>> : i \in 0 .. n} \cup {<<i, (i + 1) % n>> : i \in 0 .. n - 1} \cup {<<0, n - 1, 0>>}
Axes == {0, 1, 2}
Configs(op) ==
  CASE op \in {"add", "sub", "mul", "div"} ->
         {Cfg(op, <<>>, 0, s) : s \in UNION {Pairs(d1, d2) : d1 \in Dims, d2 \in Dims}}
    [] op \in {"addassign", "subassign"} -> {Cfg(op, <<>>, 0, s) : s \in UNION {Pairs(d, d) : d \in Dims}}
    [] op \in {"neg", "abs", "relu", "flatten"} -> {Cfg(op, <<>>, 0, <<Sh(d, b)>>) : d \in Dims, b \in Batches}
    [] op \in {"mulcr", "addcl", "subcl", "powi", "mulassign"} -> {Cfg(op, <<>>, 3, <<Sh(d, b)>>) : d \in Dims, b \in Batches}
    [] op \in {"sum", "max", "min", "logsumexp", "softmax", "ln_softmax", "mean"} ->
         {Cfg(op, <<i>>, 0, <<Sh(d, b)>>) : i \in Axes, d \in Dims, b \in Batches}
    [] op = "broadcast" -> {Cfg(op, <<i, n>>, 0, <<Sh(d, b)>>) : i \in Axes, n \in {1, 3}, d \in Dims, b \in Batches}
    [] op \in {"transpose"} -> {Cfg(op, <<>>, 0, <<Sh(d, b)>>) : d \in Dims, b \in Batches}
    [] op = "flip" -> {Cfg(op, <<i>>, 0, <<Sh(d, b)>>) : i \in Axes, d \in Dims, b \in Batches}
    [] op = "permute" -> {Cfg(op, u, 0, <<Sh(d, b)>>) : u \in {<<0, 1, 2>>, <<1, 0, 2>>, <<2, 0, 1>>, <<1, 2, 0>>, <<0, 2, 1, 3>>}, d \in Dims, b \in Batches}
    [] op \in {"tril", "triu"} -> {Cfg(op, <<k>>, 0, <<Sh(d, b)>>) : k \in {0, 1}, d \in Dims, b \in Batches}
    [] op = "slice" -> {Cfg(op, <<i, lo, hi>>, 0, <<Sh(d, b)>>) : i \in Axes, lo \in {0, 1}, hi \in {1, 2}, d \in Dims, b \in Batches}
    [] op = "split" -> {Cfg(op, <<i, n>>, 0, <<Sh(d, b)>>) : i \in Axes, n \in {1, 2, 3}, d \in Dims, b \in Batches}
    [] op \in {"pick", "ssce"} ->
         UNION {{Cfg(op, <<i>> \o ids, 0, <<Sh(d, b)>>) : ids \in Ids(Ax(Sh(d, 1), i))} : i \in Axes, d \in Dims, b \in Batches}
    [] op = "concat" -> {Cfg(op, <<i>>, 0, s) : i \in Axes, s \in UNION {Pairs(d1, d2) : d1 \in Dims, d2 \in Dims}}
    [] op = "slice_sum" -> {Cfg(op, <<>>, 0, <<Sh(d, b1), Sh(d, b2), Sh(d, b3)>>) : d \in Dims, b1 \in Batches, b2 \in Batches, b3 \in Batches}
    [] op = "matmul" -> {Cfg(op, <<>>, 0, s) : s \in UNION {Pairs(d1, d2) : d1 \in Dims, d2 \in Dims}}
    [] op = "sce" -> {Cfg(op, <<i>>, 0, s) : i \in Axes, s \in UNION {Pairs(d, d) : d \in Dims}}
    [] op = "layer_norm" -> {Cfg(op, <<>>, 4, <<Sh(d, b1), Sh(d, b2), Sh(d, b2)>>) : d \in Dims, b1 \in Batches, b2 \in {1} \cup Batches}

Scaled == {"logsumexp", "softmax", "ln_softmax", "sce", "ssce", "mean", "layer_norm"}
Sx(op) == IF op \in Scaled THEN 16 ELSE 1
Sy(op) == IF op = "layer_norm" THEN 4096 ELSE IF op \in Scaled THEN 16384 ELSE IF op = "div" THEN 64 ELSE 1
\* contents: all elements of an operand differ enough for a wrong one to show; divisors are exact
Fill(op, a, s) == [d |-> s.d, b |-> s.b,
                   v |-> [i \in 1 .. Size(s) |-> IF op = "div" /\ a = 2 THEN 2 ^ ((i - 1) % 4)
                                                  ELSE ((i * 7 + a * 5) % 23) - (IF op \in Scaled THEN 0 ELSE 11)]]
\* what the table says of a call on operands xs: as a recorded call
Head4(c, u) == [op |-> c.op, u |-> u, c |-> c.c, sx |-> Sx(c.op), sy |-> Sy(c.op)]
Weight(i) == 1 + (i % 3)
Table(c, u, xs) ==
  LET S  == [k \in DOMAIN xs |-> Shape(xs[k])]
      ok == Valid(c.op, u, c.c, 16, S)
      R  == IF ok THEN ShapesOf(c.op, u, c.c, 16, S) ELSE <<>>
      h  == Head4(c, u)
  IN [ok |-> IF ok THEN 1 ELSE 0,
      ys |-> TLCEval([k \in DOMAIN R |-> [d |-> R[k].d, b |-> R[k].b, v |-> [j \in 1 .. Size(R[k]) |-> Val(h, S, xs, R[k], k, j - 1)]]]),
      ps |-> TLCEval([k \in DOMAIN R |-> [j \in 1 .. Size(R[k]) |-> Partials(h, S, xs, R[k], k, j - 1)]])]
\* gradient of operand a with weights that depend on the place in the sample
Back(t, xs, a) ==
  LET zero == [i \in 1 .. Size(Shape(xs[a])) |-> 0]
      One(g, k, j) == LET w == Weight(j % (Len(t.ps[k]) \div t.ys[k].b))
                      IN FoldLeft(LAMBDA f, p : IF p[1] = a THEN [f EXCEPT ![p[2] + 1] = @ + w * p[3]] ELSE f, g, t.ps[k][j])
      Out(g, k) == FoldLeft(LAMBDA f, j : One(f, k, j), g, [j \in 1 .. Len(t.ps[k]) |-> j])
  IN TLCEval(FoldLeft(Out, zero, [k \in DOMAIN t.ps |-> k]))

PerSample(x, s) == [d |-> x.d, b |-> 1, v |-> IF Pattern = "first" /\ x.b = 1 /\ s > 0 THEN [i \in DOMAIN x.v |-> 0] ELSE SampleOf(x.v, x.b, s)]
Event(c) ==
  LET xs == [k \in DOMAIN c.S |-> Fill(c.op, k, c.S[k])]
      picks == c.op \in {"pick", "ssce"}
      nid == IF picks THEN Len(c.u) - 1 ELSE 1
      bs == [k \in DOMAIN c.S |-> c.S[k].b] \o (IF picks THEN <<nid>> ELSE <<>>)
      B  == Largest(bs)
      u(s) == IF picks THEN <<c.u[1], c.u[IF nid = 1 THEN 2 ELSE 2 + s]>> ELSE c.u
      red == c.op \in {"addassign", "subassign"} /\ c.S[1].b = 1
      t  == Table(c, c.u, xs)
      sm == IF Together(bs)
            THEN [s \in 1 .. B |->
                    LET p == [k \in DOMAIN xs |-> PerSample(xs[k], s - 1)]
                        r == Table(c, u(s - 1), p)
                    IN [ok |-> r.ok, ys |-> r.ys,
                        gx |-> IF r.ok = 1 THEN [k \in DOMAIN xs |-> Back(r, p, k)] ELSE <<>>]]
            ELSE <<>>
  IN [k |-> "one", ex |-> IF c.op \in {"mean", "layer_norm"} THEN 0 ELSE 1, bs |-> bs, tgt |-> IF red THEN 1 ELSE 0, x0 |-> xs[1].v,
      ok |-> t.ok, ys |-> t.ys, yb |-> [k \in DOMAIN t.ys |-> B],
      gx |-> IF t.ok = 1 THEN [k \in DOMAIN xs |-> Back(t, xs, k)] ELSE <<>>, sm |-> sm]

Init == cfg = None
Next == cfg = None /\ \E op \in Ops : \E c \in Configs(op) : cfg' = c
Spec == Init /\ [][Next]_vars
Law == cfg # None => LET e == TLCEval(Event(cfg)) IN YbOk(e) /\ OneOk([e EXCEPT !.gx = IF e.tgt = 1 THEN <<>> ELSE @,
                                                                      !.sm = IF e.tgt = 1 THEN [s \in DOMAIN @ |-> [@[s] EXCEPT !.gx = <<>>]] ELSE @])
EmitStep == PrintT("BEHAVIOUR " \o ToJson(cfg'))
=============================================================================
