------------------------------- MODULE Shapes -------------------------------
(* Shapes and the shape rule of every operation.

   A shape is the sequence of its axis sizes without trailing ones, plus its
   batch size.  Axes are counted from 0; every axis beyond the last is 1.    *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

MaxAxes == 8
Huge    == 2000000000     \* argument values from here on stand for "gigantic"

RECURSIVE Canon(_)
Canon(d) == IF Len(d) > 0 /\ d[Len(d)] = 1 THEN Canon(SubSeq(d, 1, Len(d) - 1)) ELSE d

Sh(d, b) == [d |-> Canon(d), b |-> b]
Ax(s, i) == IF i < Len(s.d) THEN s.d[i + 1] ELSE 1
Prod(q)  == FoldLeft(LAMBDA a, x : a * x, 1, q)
Sum(q)   == FoldLeft(LAMBDA a, x : a + x, 0, q)
MinN(a, b) == IF a < b THEN a ELSE b
MaxN(a, b) == IF a > b THEN a ELSE b
Lower(s, i) == Prod(SubSeq(s.d, 1, MinN(i, Len(s.d))))
Vol(s)   == Prod(s.d)
Size(s)  == Vol(s) * s.b
Scalar(s) == Len(s.d) = 0
Matrix(s) == Len(s.d) <= 2
SameAxes(s, t)  == s.d = t.d
SameBut(s, t, i) == \A k \in 0 .. MaxAxes - 1 : k = i \/ Ax(s, k) = Ax(t, k)
BatchOk(s, t) == s.b = t.b \/ s.b = 1 \/ t.b = 1
BatchOf(s, t) == MaxN(s.b, t.b)
WithAx(s, i, n) ==
    Sh([k \in 1 .. MaxN(Len(s.d), i + 1) |-> IF k = i + 1 THEN n ELSE Ax(s, k - 1)], s.b)
WithB(s, b) == [d |-> s.d, b |-> b]

-----------------------------------------------------------------------------
(* The binary rule: equal axes, or a scalar on either side; batches equal or one. *)
BinOk(s, t)    == (Scalar(s) \/ Scalar(t) \/ SameAxes(s, t)) /\ BatchOk(s, t)
BinShape(s, t) == [d |-> IF Scalar(s) THEN t.d ELSE s.d, b |-> BatchOf(s, t)]
AxisOk(i)      == i < MaxAxes
IdsOk(s, ids, n) ==
    /\ Len(ids) >= 1
    /\ \A k \in 1 .. Len(ids) : ids[k] < n

PickOk(s, ids, i) ==
    /\ IdsOk(s, ids, Ax(s, i))
    /\ s.b = Len(ids) \/ s.b = 1 \/ Len(ids) = 1
    /\ AxisOk(i)

BinOps   == {"add", "sub", "mul", "div", "pow"}
ConstOps == {"addcr", "subcr", "mulcr", "divcr", "addcl", "subcl", "mulcl", "divcl",
             "powf", "powi", "prelu", "elu", "mulassign"}
UnaryOps == {"neg", "sqrt", "abs", "sin", "cos", "tan", "exp", "ln", "tanh", "sigmoid",
             "softplus", "relu", "lrelu"}
LineOps  == {"sum", "max", "min", "logsumexp", "mean"}   \* reduce one axis to 1

(* Folding the binary rule over a list (used by sums of lists and normalisations). *)
RECURSIVE FoldOk(_, _), FoldShape(_, _)
FoldOk(s, q) == q = <<>> \/ (BinOk(s, Head(q)) /\ FoldOk(BinShape(s, Head(q)), Tail(q)))
FoldShape(s, q) == IF q = <<>> THEN s ELSE FoldShape(BinShape(s, Head(q)), Tail(q))

(* Is the request valid?  u: integer arguments, c: constant, S: operand shapes,
   one: the rate of a dropout that drops everything. *)
Valid(op, u, c, one, S) ==
  CASE op \in BinOps    -> BinOk(S[1], S[2])
    [] op \in ConstOps \cup UnaryOps -> TRUE
    [] op \in LineOps \cup {"ln_softmax", "softmax"} -> AxisOk(u[1])
    [] op = "broadcast" -> /\ AxisOk(u[1]) /\ Ax(S[1], u[1]) = 1 /\ u[2] >= 1
                           /\ u[2] >= Huge => Size(S[1]) < 2
    [] op = "sce"       -> SameAxes(S[1], S[2]) /\ BatchOk(S[1], S[2]) /\ AxisOk(u[1])
    [] op = "ssce"      -> PickOk(S[1], Tail(u), u[1])
    [] op = "matmul"    -> /\ Matrix(S[1]) /\ Matrix(S[2]) /\ Ax(S[1], 1) = Ax(S[2], 0)
                           /\ BatchOk(S[1], S[2])
    [] op = "transpose" -> Matrix(S[1])
    [] op \in {"tril", "triu"} -> Matrix(S[1]) /\ Ax(S[1], 0) = Ax(S[1], 1)
    [] op = "slice"     -> AxisOk(u[1]) /\ u[2] < u[3] /\ u[3] <= Ax(S[1], u[1])
    [] op = "split"     -> AxisOk(u[1]) /\ u[2] >= 1 /\ Ax(S[1], u[1]) >= u[2]
                           /\ Ax(S[1], u[1]) % u[2] = 0
    [] op = "pick"      -> PickOk(S[1], Tail(u), u[1])
    [] op = "concat"    -> /\ Len(S) >= 1 /\ AxisOk(u[1])
                           /\ \A i, j \in 1 .. Len(S) : SameBut(S[i], S[j], u[1]) /\ BatchOk(S[i], S[j])
    [] op = "reshape"   -> /\ \A k \in 1 .. Len(u) : u[k] >= 1
                           /\ Len(u) <= MaxAxes + 1
                           /\ Prod(Tail(u)) * u[1] = Size(S[1])
    [] op \in {"flatten", "batch_sum", "batch_mean"} -> TRUE
    [] op = "batch_slice" -> u[1] < u[2] /\ u[2] <= S[1].b
    [] op = "batch_split" -> u[1] >= 1 /\ S[1].b >= u[1] /\ S[1].b % u[1] = 0
    [] op = "batch_pick"  -> IdsOk(S[1], u, S[1].b)
    [] op = "batch_concat" -> Len(S) >= 1 /\ \A i \in 1 .. Len(S) : SameAxes(S[1], S[i])
    [] op = "slice_sum"   -> Len(S) >= 1 /\ FoldOk(S[1], S)
    [] op = "dropout"     -> TRUE
    [] op = "dropout_dim" -> u[1] = 0 \/ c >= one \/ AxisOk(u[2])
    [] op = "batch_norm"  -> u[1] = 0 \/ FoldOk(S[2], <<S[1], S[3]>>)
    [] op = "layer_norm"  -> FoldOk(S[2], <<S[1], S[3]>>)
    [] op \in {"addassign", "subassign"} -> SameAxes(S[1], S[2]) /\ BatchOk(S[1], S[2])
    [] op \in {"argmax", "argmin", "argsort"} -> TRUE
    \* kernels by name, not guarded: only asked for what makes sense
    [] op = "flip"    -> AxisOk(u[1])
    [] op = "permute" -> /\ Len(u) <= MaxAxes /\ Len(u) >= Len(S[1].d)
                         /\ {u[k] : k \in 1 .. Len(u)} = 0 .. Len(u) - 1
    [] OTHER -> FALSE

RECURSIVE MaxBatch(_)
MaxBatch(S) == IF S = <<>> THEN 1 ELSE MaxN(Head(S).b, MaxBatch(Tail(S)))

(* The shapes of the results of a valid request. *)
ShapesOf(op, u, c, one, S) ==
  CASE op \in BinOps    -> <<BinShape(S[1], S[2])>>
    [] op \in ConstOps \cup UnaryOps -> <<S[1]>>
    [] op \in LineOps   -> <<WithAx(S[1], u[1], 1)>>
    [] op \in {"ln_softmax", "softmax"} -> <<S[1]>>
    [] op = "broadcast" -> <<WithAx(S[1], u[1], u[2])>>
    [] op = "sce"       -> <<WithAx(WithB(S[1], BatchOf(S[1], S[2])), u[1], 1)>>
    [] op \in {"ssce", "pick"} -> <<WithB(WithAx(S[1], u[1], 1), MaxN(S[1].b, Len(u) - 1))>>
    [] op = "matmul"    -> <<Sh(<<Ax(S[1], 0), Ax(S[2], 1)>>, BatchOf(S[1], S[2]))>>
    [] op = "transpose" -> <<Sh(<<Ax(S[1], 1), Ax(S[1], 0)>>, S[1].b)>>
    [] op \in {"tril", "triu"} -> <<S[1]>>
    [] op = "slice"     -> <<WithAx(S[1], u[1], u[3] - u[2])>>
    [] op = "split"     -> [k \in 1 .. u[2] |-> WithAx(S[1], u[1], Ax(S[1], u[1]) \div u[2])]
    [] op = "concat"    -> <<WithB(WithAx(S[1], u[1], Sum([k \in 1 .. Len(S) |-> Ax(S[k], u[1])])),
                                   MaxBatch(S))>>
    [] op = "reshape"   -> <<Sh(Tail(u), u[1])>>
    [] op = "flatten"   -> <<Sh(<<Vol(S[1])>>, S[1].b)>>
    [] op \in {"batch_sum", "batch_mean"} -> <<WithB(S[1], 1)>>
    [] op = "batch_slice" -> <<WithB(S[1], u[2] - u[1])>>
    [] op = "batch_split" -> [k \in 1 .. u[1] |-> WithB(S[1], S[1].b \div u[1])]
    [] op = "batch_pick"  -> <<WithB(S[1], Len(u))>>
    [] op = "batch_concat" -> <<WithB(S[1], Sum([k \in 1 .. Len(S) |-> S[k].b]))>>
    [] op = "slice_sum"   -> <<FoldShape(S[1], S)>>
    [] op \in {"dropout", "dropout_dim"} -> <<S[1]>>
    [] op = "batch_norm"  -> <<IF u[1] = 0 THEN S[1] ELSE FoldShape(S[2], <<S[1], S[3]>>)>>
    [] op = "layer_norm"  -> <<FoldShape(S[2], <<S[1], S[3]>>)>>
    [] op \in {"addassign", "subassign", "flip"} -> <<S[1]>>
    [] op = "permute" -> <<Sh([k \in 1 .. Len(u) |-> Ax(S[1], u[k])], S[1].b)>>
    [] OTHER -> <<>>
=============================================================================
