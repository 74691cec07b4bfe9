------------------------------ MODULE MCCalls --------------------------------
(* Every operation of the list with every small configuration, valid or not: shapes, batches,
   integer arguments and one constant.  Checked of the tables of Shapes and Tensors:
     Defined  a valid request has results of positive size, all of whose elements have a value
     Slopes   the derivatives of a result are the differences of its values
     Algebra  the operations keep the laws that tie them together
   Every configuration is told (EmitStep) for the real code.                             *)
EXTENDS Tensors, Json

CONSTANTS Ops, Batches, Dims, Axes
VARIABLES cfg
vars == <<cfg>>
None == [op |-> "none"]
DimsA == {<<>>, <<2>>, <<3>>, <<2, 2>>, <<1, 2>>}
DimsB == DimsA \cup {<<2, 3>>, <<2, 1, 2>>, <<1, 1, 1, 2>>}
DimsD == DimsB \cup {<<4>>, <<5>>, <<3, 2>>, <<2, 2, 2>>, <<1, 7>>, <<3, 1, 3>>}
DimsC == {<<>>, <<2>>, <<2, 2>>, <<1, 3>>}
AxesA == {0, 1, 3, 7, 8}

Scaled == {"pow", "powf", "sqrt", "sin", "cos", "tan", "exp", "ln", "tanh", "sigmoid", "softplus", "elu", "lrelu", "prelu",
           "logsumexp", "ln_softmax", "softmax", "sce", "ssce", "batch_norm", "layer_norm"}
Drop == {"dropout", "dropout_dim"}
Sx(op) == IF op \in Scaled THEN 16 ELSE IF op \in Drop THEN 4 ELSE 1
Sy(op) == IF op \in {"batch_norm", "layer_norm"} THEN 4096
          ELSE IF op = "prelu" THEN 256
          ELSE IF op \in Scaled \cup Drop \cup {"mean", "batch_mean"} THEN 16384
          ELSE IF op \in {"div", "divcr", "divcl", "powi"} THEN 64 ELSE 1
Exact(op) == op = "prelu" \/ Sy(op) \in {1, 64}

Pairs(D) == {<<Sh(d1, b1), Sh(d2, b2)>> : d1 \in D, d2 \in D, b1 \in Batches, b2 \in Batches}
Ones(D) == {<<Sh(d, b)>> : d \in D, b \in Batches}
Triples(D) == {<<Sh(d, b1), Sh(d, b2), Sh(d3, b3)>> : d \in D, d3 \in D, b1 \in Batches, b2 \in Batches, b3 \in {1, 2}}
IdSeqs(n) == {<<>>} \cup {<<i>> : i \in (0 .. n) \cup {Huge}} \cup {<<i, j>> : i \in 0 .. n - 1, j \in 0 .. n} \cup {<<0, n - 1, 0>>}
Us(op, S) ==
  CASE op \in LineOps \cup {"ln_softmax", "softmax", "sce", "concat"} -> {<<i>> : i \in Axes}
    [] op \in {"argmax", "argmin", "argsort"} -> {<<i>> : i \in {0, 1, 2, 7}}
    [] op = "broadcast" -> {<<i, n>> : i \in Axes, n \in {0, 1, 2, 3}} \cup (IF Size(S[1]) > 1 THEN {<<0, Huge>>, <<2, Huge>>} ELSE {})
    [] op \in {"pick", "ssce"} -> UNION {{<<i>> \o q : q \in IdSeqs(Ax(S[1], i))} : i \in Axes}
    [] op \in {"tril", "triu"} -> {<<k>> : k \in {0, 1, 2, 5, Huge}}
    [] op = "slice" -> {<<i, lo, hi>> : i \in Axes, lo \in {0, 1, 2, Huge}, hi \in {0, 1, 2, 3, 4, Huge}}
    [] op = "split" -> {<<i, n>> : i \in Axes, n \in {0, 1, 2, 3, 4, Huge}}
    [] op = "reshape" -> {<<b>> \o d : b \in {0, 1, 2, 3}, d \in Dims \cup {<<4>>, <<6>>, <<3, 2>>, <<2, 1>>, <<0>>, <<0, 2>>, <<1, 1, 1, 1, 1, 1, 1, 2>>,
                                                       <<2, 1, 1, 1, 1, 1, 1, 1, 1>>, <<2, 1, 1, 1, 1, 1, 1, 1, 1, 1>>}}
    [] op = "batch_slice" -> {<<lo, hi>> : lo \in {0, 1, 2, 3, Huge}, hi \in {0, 1, 2, 3, 4, Huge}}
    [] op = "batch_split" -> {<<n>> : n \in {0, 1, 2, 3, 4, Huge}}
    [] op = "batch_pick" -> IdSeqs(S[1].b)
    [] op = "dropout" -> {<<0>>, <<1>>}
    [] op = "flip" -> {<<i>> : i \in Axes \ {8}}
    [] op = "permute" -> UNION {{[k \in 1 .. n |-> f[k] - 1] : f \in {g \in [1 .. n -> 1 .. n] : \A i, j \in 1 .. n : i # j => g[i] # g[j]}} : n \in Len(S[1].d) .. 4}
    [] op = "dropout_dim" -> {<<e, i>> : e \in {0, 1}, i \in Axes}
    [] op = "batch_norm" -> {<<0>>, <<1>>}
    [] OTHER -> {<<>>}
Cs(op) ==
  CASE op \in {"addcr", "subcr", "mulcr", "addcl", "subcl", "mulcl", "mulassign"} -> {-3, 0, 2}
    [] op \in {"divcr", "divcl"} -> {-2, 1, 4}
    [] op = "powi" -> {-2, -1, 0, 1, 2, 3}
    [] op = "powf" -> {-16, 0, 8, 16, 32}
    [] op = "prelu" -> {-20, 0, 8}
    [] op = "elu" -> {-12, 8}
    [] op \in Drop -> {0, 1, 3, 4, 5}
    [] op \in {"batch_norm", "layer_norm"} -> {1, 16}
    [] OTHER -> {0}
Operandss(op) ==
  CASE op \in BinOps \cup {"addassign", "subassign", "matmul"} -> Pairs(Dims)
    [] op = "sce" -> Pairs(DimsC)
    \* parts of more than one sample
    [] op \in {"batch_split", "batch_slice"} -> Ones(Dims) \cup {<<Sh(d, b)>> : d \in Dims, b \in {4, 6}}
    [] op \in {"concat", "batch_concat"} -> Ones(Dims) \cup Pairs(Dims) \cup Triples(DimsC)
    [] op = "slice_sum" -> Ones(Dims) \cup Pairs(Dims) \cup Triples(DimsC)
    [] op \in {"batch_norm", "layer_norm"} -> {<<s[1], s[2], s[2]>> : s \in Pairs(Dims)}
    [] OTHER -> Ones(Dims)
Twice == {"add", "sub", "mul", "div", "pow", "matmul", "concat", "batch_concat", "slice_sum"}    \* the same operand on both sides

(* Contents: neighbouring elements differ, and no element sits where a function has no slope. *)
Content(op, a, c, S, u, al, i) ==
  CASE op \in {"div", "divcl"} /\ (a = 2 \/ al = 1 \/ op = "divcl") -> <<2, -1, 4, 1, -4, -2>>[((i * 5 + a) % 6) + 1]
    [] op = "powi" -> <<2, -1, 1, -2>>[(i % 4) + 1]
    [] op = "pow" -> IF a = 1 THEN <<16, 8, 24, 48, 12>>[(i % 5) + 1] ELSE <<16, 32, 8, 48, 24>>[(i % 5) + 1]
    [] op \in {"powf", "ln", "sqrt"} -> <<16, 8, 24, 48, 12, 96>>[(i % 6) + 1]
    [] op = "tan" -> ((i * 5) % 29) - 14
    [] op \in {"max", "min"} -> ((i * 7) % 23) * 3 - 30
    [] op \in {"argmax", "argmin", "argsort"} -> ((i * 5 + i \div 3) % 4) - 2
    [] op = "sce" /\ a = 2 ->              \* lines that sum to one
         LET n == Ax(S[2], u[1])
             k == IF u[1] < MaxAxes THEN PlaceIn(S[2], u[1], i) ELSE 0
         IN IF n = 1 THEN 16 ELSE IF k = 0 THEN 16 - 3 * (n - 1) ELSE 3
    \* far from zero, compared with how they differ
    [] op \in {"batch_norm", "layer_norm"} /\ a = 1 /\ c = 16 -> 16384 + ((i * 11) % 47) * 2 - 45
    [] op \in Scaled -> ((i * 11 + a * 7) % 47) * 2 - 45          \* odd: never zero
    [] OTHER -> ((i * 7 + a * 5) % 23) * 2 - 21
Operands(op, u, c, S, al) ==
  [a \in DOMAIN S |-> [d |-> S[a].d, b |-> S[a].b, v |-> [i \in 1 .. Size(S[a]) |-> Content(op, a, c, S, u, al, i - 1)]]]

One(op) == Sx(op)
Call(op, u, c, S, al) ==
  [op |-> op, u |-> u, c |-> c, sx |-> Sx(op), sy |-> Sy(op), ex |-> IF Exact(op) THEN 1 ELSE 0, al |-> al,
   xs |-> Operands(op, u, c, S, al)]

Init == cfg = None
Next == /\ cfg = None
        /\ \E op \in Ops :
             \E S \in Operandss(op), c \in Cs(op) :
               \E u \in Us(op, S) :
                 \/ cfg' = Call(op, u, c, S, 0)
                 \/ Len(S) = 1 /\ op \in Twice /\ cfg' = Call(op, u, c, S, 1)
                 \/ op \in Twice \ {"concat", "batch_concat", "slice_sum"} /\ S[1] = S[2] /\ cfg' = Call(op, u, c, <<S[1]>>, 1)
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
Shs(xs) == [k \in DOMAIN xs |-> Shape(xs[k])]
Both(c) == IF c.al = 1 THEN <<c.xs[1], c.xs[1]>> ELSE c.xs
Ok(op, u, c, xs) == Valid(op, u, c, One(op), Shs(xs))
Head4(op, u, c) == [op |-> op, u |-> u, c |-> c, sx |-> Sx(op), sy |-> Sy(op), mask |-> [i \in 1 .. 100 |-> 1]]
\* the results of a valid request as tensors
Res(op, u, c, xs) ==
  LET S == Shs(xs)
      R == ShapesOf(op, u, c, One(op), S)
  IN TLCEval([k \in DOMAIN R |-> [d |-> R[k].d, b |-> R[k].b, v |-> TLCEval([j \in 1 .. Size(R[k]) |-> Val(Head4(op, u, c), S, xs, R[k], k, j - 1)])]])
Slope(op, u, c, xs) ==
  LET S == Shs(xs)
      R == ShapesOf(op, u, c, One(op), S)
  IN TLCEval([k \in DOMAIN R |-> TLCEval([j \in 1 .. Size(R[k]) |-> Partials(Head4(op, u, c), S, xs, R[k], k, j - 1)])])

Told(c) == c @@ [ok |-> IF Ok(c.op, c.u, c.c, Both(c)) THEN 1 ELSE 0]
EmitStep == PrintT("BEHAVIOUR " \o ToJson(Told(cfg')))
Checked == cfg # None /\ cfg.op \notin {"argmax", "argmin", "argsort"} /\ Ok(cfg.op, cfg.u, cfg.c, Both(cfg))
Defined == Checked =>
  LET r == Res(cfg.op, cfg.u, cfg.c, Both(cfg))
  IN Len(r) >= 1 /\ \A k \in DOMAIN r : Size(Shape(r[k])) >= 1 /\ Len(r[k].d) <= MaxAxes /\ r[k].d = Canon(r[k].d)
                                        /\ \A j \in DOMAIN r[k].v : r[k].v[j] \in Int

NoDiff == {"div", "divcl", "powi", "reshape"}
Tolerance(op, p) ==
  IF op \in {"batch_norm", "layer_norm"} THEN 800 + Abs(p) \div 8
  ELSE IF Exact(op) THEN 0 ELSE 100 + Abs(p) \div 16
\* the derivative of result k at j by element i of operand a
By(p, a, i) == FoldLeft(LAMBDA s, t : IF t[1] = a /\ t[2] = i THEN s + t[3] ELSE s, 0, p)
Moved(xs, a, i, h) == [xs EXCEPT ![a].v[i + 1] = @ + h]
Slopes == (Checked /\ cfg.al = 0) =>
  LET op == cfg.op
      xs == cfg.xs
      P  == Slope(op, cfg.u, cfg.c, xs)
      R  == Res(op, cfg.u, cfg.c, xs)
  IN CASE op \notin NoDiff ->
            \A a \in DOMAIN xs : \A i \in 0 .. Len(xs[a].v) - 1 :
               LET up == Res(op, cfg.u, cfg.c, Moved(xs, a, i, 1))
                   dn == Res(op, cfg.u, cfg.c, Moved(xs, a, i, -1))
               IN \A k \in DOMAIN P : \A j \in DOMAIN P[k] :
                    LET p == By(P[k][j], a, i)
                    IN Abs(cfg.sx * (up[k].v[j] - dn[k].v[j]) - 2 * p) <= Tolerance(op, 2 * p)
       [] op = "div" ->
            \A j \in DOMAIN P[1] :
              LET p == P[1][j]
              IN /\ Len(p) = 2
                 /\ p[1][3] * xs[2].v[p[2][2] + 1] = cfg.sy
                 /\ p[2][3] * xs[2].v[p[2][2] + 1] = -R[1].v[j]
       [] op = "divcl" -> \A j \in DOMAIN P[1] : P[1][j][1][3] * xs[1].v[j] = -R[1].v[j]
       [] op = "powi"  -> \A j \in DOMAIN P[1] : P[1][j][1][3] * xs[1].v[j] = cfg.c * R[1].v[j]
       [] OTHER -> TRUE

(* laws *)
R1(op, u, c, xs) == Res(op, u, c, xs)[1]
Times(x, n) == [x EXCEPT !.v = [i \in DOMAIN x.v |-> n * x.v[i]]]
\* the operand as its samples would see it in a batch of n
Spread(x, n) == IF x.b = n THEN x ELSE [d |-> x.d, b |-> n, v |-> [i \in 1 .. Len(x.v) * n |-> x.v[((i - 1) % Len(x.v)) + 1]]]
Neg(x) == Times(x, -1)
NearSeq(p, q, t) == Len(p) = Len(q) /\ \A i \in DOMAIN p : Abs(p[i] - q[i]) <= t
AtScale(x) == x.v
Algebra == Checked =>
  LET op == cfg.op
      u  == cfg.u
      c  == cfg.c
      xs == Both(cfg)
      x  == xs[1]
      s  == Shape(x)
      r  == Res(op, u, c, xs)
      y  == r[1]
  IN CASE op = "transpose" -> R1("transpose", <<>>, 0, <<y>>) = x
       [] op = "matmul" -> R1("transpose", <<>>, 0, <<y>>)
                           = R1("matmul", <<>>, 0, <<R1("transpose", <<>>, 0, <<xs[2]>>), R1("transpose", <<>>, 0, <<x>>)>>)
       [] op = "split" -> /\ R1("concat", <<u[1]>>, 0, r) = x
                          /\ \A k \in DOMAIN r : LET m == Ax(s, u[1]) \div u[2]
                                                 IN r[k] = R1("slice", <<u[1], (k - 1) * m, k * m>>, 0, <<x>>)
       [] op = "concat" -> LET from(k) == Sum([i \in 1 .. k - 1 |-> Ax(Shape(xs[i]), u[1])])
                           IN \A k \in DOMAIN xs : R1("slice", <<u[1], from(k), from(k + 1)>>, 0, <<y>>) = Spread(xs[k], y.b)
       [] op = "slice" /\ u[3] = u[2] + 1 -> y = R1("pick", <<u[1], u[2]>>, 0, <<x>>)
       [] op = "slice" -> R1("slice", <<u[1], 1, u[3] - u[2]>>, 0, <<y>>) = R1("slice", <<u[1], u[2] + 1, u[3]>>, 0, <<x>>)
       [] op = "broadcast" -> R1("sum", <<u[1]>>, 0, <<y>>) = Times(x, u[2])
       [] op = "max" -> y = Neg(R1("min", u, 0, <<Neg(x)>>))
       [] op = "sum" -> R1("batch_sum", <<>>, 0, <<y>>) = R1("sum", u, 0, <<R1("batch_sum", <<>>, 0, <<x>>)>>)
       [] op = "mean" -> NearSeq(Times(y, Ax(s, u[1])).v, Times(R1("sum", u, 0, <<x>>), 16384).v, 4)
       [] op = "batch_mean" -> NearSeq(Times(y, s.b).v, Times(R1("batch_sum", <<>>, 0, <<x>>), 16384).v, 4)
       [] op = "tril" /\ u[1] <= 1 -> R1("add", <<>>, 0, <<y, R1("triu", <<1 - u[1]>>, 0, <<x>>)>>) = x
       [] op = "triu" -> R1("transpose", <<>>, 0, <<y>>) = R1("tril", u, 0, <<R1("transpose", <<>>, 0, <<x>>)>>)
       [] op \in {"reshape", "flatten"} -> y.v = x.v
       [] op = "flip" -> /\ R1("flip", u, 0, <<y>>) = x
                         /\ R1("sum", u, 0, <<y>>) = R1("sum", u, 0, <<x>>)
                         /\ Ax(s, u[1]) > 1 => R1("pick", <<u[1], 0>>, 0, <<y>>) = R1("pick", <<u[1], Ax(s, u[1]) - 1>>, 0, <<x>>)
       [] op = "permute" -> /\ \A k \in DOMAIN u : Ax(Shape(y), k - 1) = Ax(s, u[k])
                            /\ R1("permute", [k \in DOMAIN u |-> (CHOOSE i \in DOMAIN u : u[i] = k - 1) - 1], 0, <<y>>) = x
                            /\ u = <<1, 0>> => y = R1("transpose", <<>>, 0, <<x>>)
                            /\ \A k \in DOMAIN u : R1("pick", <<k - 1, 0>>, 0, <<y>>).v
                                  = R1("permute", u, 0, <<R1("pick", <<u[k], 0>>, 0, <<x>>)>>).v
       [] op = "batch_split" -> R1("batch_concat", <<>>, 0, r) = x
       [] op = "batch_slice" -> y = R1("batch_pick", [k \in 1 .. u[2] - u[1] |-> u[1] + k - 1], 0, <<x>>)
       [] op = "batch_concat" -> LET from(k) == Sum([i \in 1 .. k - 1 |-> xs[i].b])
                                 IN \A k \in DOMAIN xs : R1("batch_slice", <<from(k), from(k + 1)>>, 0, <<y>>) = xs[k]
       [] op = "sub" -> y = R1("add", <<>>, 0, <<x, Neg(xs[2])>>)
       [] op \in {"add", "mul"} -> y = R1(op, <<>>, 0, <<xs[2], x>>)
       [] op = "div" -> R1("mul", <<>>, 0, <<y, xs[2]>>) = R1("mul", <<>>, 0, <<Times(x, 64), [xs[2] EXCEPT !.v = [i \in DOMAIN @ |-> 1]]>>)
       [] op = "subcr" -> y = R1("addcr", <<>>, -c, <<x>>)
       [] op = "subcl" -> y = Neg(R1("subcr", <<>>, c, <<x>>))
       [] op = "mulcl" -> y = R1("mulcr", <<>>, c, <<x>>)
       [] op = "addcl" -> y = R1("addcr", <<>>, c, <<x>>)
       [] op = "slice_sum" -> y = FoldLeft(LAMBDA a, z : IF a.v = <<>> THEN z ELSE R1("add", <<>>, 0, <<a, z>>), [d |-> <<>>, b |-> 1, v |-> <<>>], xs)
       [] op = "relu" -> Times(y, 2) = R1("add", <<>>, 0, <<x, R1("abs", <<>>, 0, <<x>>)>>)
       [] op = "softmax" -> \A t \in DOMAIN R1("sum", u, 0, <<y>>).v : Abs(R1("sum", u, 0, <<y>>).v[t] - FS) <= Ax(s, u[1])
       [] op = "ln_softmax" -> \A j \in 0 .. Size(s) - 1 :
            y.v[j + 1] = x.v[j + 1] * 1024 - R1("logsumexp", u, 0, <<x>>).v[(j % Lower(s, u[1])) + Lower(s, u[1]) * (j \div (Lower(s, u[1]) * Ax(s, u[1]))) + 1]
       [] op = "ssce" -> NearSeq(y.v, Neg(R1("pick", u, 0, <<R1("ln_softmax", <<u[1]>>, 0, <<x>>)>>)).v, 2)
       [] op = "sigmoid" -> \A j \in DOMAIN x.v : Abs(y.v[j] + R1("sigmoid", <<>>, 0, <<Neg(x)>>).v[j] - FS) <= 2
       [] op = "tanh" -> \A j \in DOMAIN x.v : 2 * Abs(x.v[j]) > 320 \/ Abs(y.v[j] + FS - 2 * R1("sigmoid", <<>>, 0, <<Times(x, 2)>>).v[j]) <= 4
       [] op = "softplus" -> \A j \in DOMAIN x.v : Abs(y.v[j] - R1("softplus", <<>>, 0, <<Neg(x)>>).v[j] - 1024 * x.v[j]) <= 2
       [] op \in {"sin", "cos"} -> \A j \in DOMAIN x.v : LET a == R1("sin", <<>>, 0, <<x>>).v[j]
                                                             b == R1("cos", <<>>, 0, <<x>>).v[j]
                                                         IN Abs(a * a + b * b - FS * FS) <= 4 * FS
       [] op = "sqrt" -> \A j \in DOMAIN x.v : Abs((y.v[j] * y.v[j]) \div FS - 1024 * x.v[j]) <= 8
       [] OTHER -> TRUE
=============================================================================
