------------------------------- MODULE Tensors -------------------------------
(* What every operation computes and what its gradient is.

   A tensor is [d, b, v] (or [d, b, f] with contents given by a formula): axis
   sizes, batch size, elements in column-major order with the batch outermost.

   Operations are described per output element: `Val` is the element, and
   `Partials` lists <<operand, element, derivative>>.  Integers stand for reals at
   a scale: operands at c.sx, results and derivatives at c.sy.                *)
EXTENDS Shapes, FixedMath, TLC

At(x, i) == IF "f" \in DOMAIN x
            THEN ((i * x.f[1] + x.f[2]) % x.f[3]) - x.f[4]
            ELSE x.v[i + 1]
Shape(x) == [d |-> x.d, b |-> x.b]

\* position in an operand of shape s of the element that output position j (shape y) needs,
\* when s may be shared by all samples
Shared(s, y, j) == IF s.b = y.b THEN j ELSE j % Vol(s)
ScalarAt(s, y, j) == IF s.b = 1 THEN 0 ELSE j \div Vol(y)
BinAt(s, y, j) == IF Scalar(s) THEN ScalarAt(s, y, j) ELSE Shared(s, y, j)

\* the line through output position j when axis i (length n) was reduced to one
LineAt(s, i, j, k) ==
  LET lo == Lower(s, i) IN (j % lo) + lo * (k + Ax(s, i) * (j \div lo))
\* the line containing position p, and p's place in it
InLine(s, i, p, k) ==
  LET lo == Lower(s, i)
      n  == Ax(s, i)
  IN (p % lo) + lo * (k + n * (p \div (lo * n)))
PlaceIn(s, i, p) == (p \div Lower(s, i)) % Ax(s, i)
Run(x, from, step, n) ==
  TLCEval(IF "f" \in DOMAIN x
          THEN LET f == x.f IN [k \in 1 .. n |-> ((((from + step * (k - 1)) * f[1] + f[2]) % f[3]) - f[4])]
          ELSE LET v == x.v IN [k \in 1 .. n |-> v[from + step * (k - 1) + 1]])
Line(x, s, i, j)   == Run(x, LineAt(s, i, j, 0), Lower(s, i), Ax(s, i))
LineOf(x, s, i, p) == Run(x, InLine(s, i, p, 0), Lower(s, i), Ax(s, i))

-----------------------------------------------------------------------------
(* Affine operations: output = sum of coefficient * element (+ constant).       *)
Affine == {"neg", "add", "sub", "addcr", "subcr", "addcl", "subcl", "mulcr", "mulcl", "sum",
           "broadcast", "transpose", "tril", "triu", "slice", "split", "pick", "concat", "reshape",
           "flatten", "batch_sum", "batch_slice", "batch_split", "batch_pick", "batch_concat",
           "slice_sum", "addassign", "subassign", "mulassign", "mean", "batch_mean", "flip", "permute"}

\* which part of a concatenation holds place p: <<part, place in part>>
RECURSIVE PartAt(_, _, _)
PartAt(lens, p, k) == IF p < lens[k] THEN <<k, p>> ELSE PartAt(lens, p - lens[k], k + 1)

\* terms <<operand, element, coefficient>> of output oi, position j (y: its shape)
Lin(op, u, c, S, y, oi, j) ==
  CASE op = "neg" -> <<<<1, j, -1>>>>
    [] op \in {"addassign", "subassign"} ->
         \* the target takes the sum over the samples when only the operand is batched
         LET k == IF op = "addassign" THEN 1 ELSE -1
         IN IF S[1].b = 1
            THEN <<<<1, j, 1>>>> \o [i \in 1 .. S[2].b |-> <<2, j + (i - 1) * Vol(S[2]), k>>]
            ELSE <<<<1, j, 1>>, <<2, BinAt(S[2], y, j), k>>>>
    [] op = "add" -> <<<<1, BinAt(S[1], y, j), 1>>, <<2, BinAt(S[2], y, j), 1>>>>
    [] op = "sub" -> <<<<1, BinAt(S[1], y, j), 1>>, <<2, BinAt(S[2], y, j), -1>>>>
    [] op \in {"addcr", "addcl", "subcr"} -> <<<<1, j, 1>>>>
    [] op = "subcl" -> <<<<1, j, -1>>>>
    [] op \in {"mulcr", "mulcl", "mulassign"} -> <<<<1, j, c>>>>
    [] op \in {"sum", "mean"} -> [k \in 1 .. Ax(S[1], u[1]) |-> <<1, LineAt(S[1], u[1], j, k - 1), 1>>]
    [] op = "broadcast" ->
         LET lo == Lower(S[1], u[1]) IN <<<<1, (j % lo) + lo * (j \div (lo * u[2])), 1>>>>
    [] op = "transpose" ->
         LET r == Ax(S[1], 0)
             q == Ax(S[1], 1)
             m == j % (r * q)
         IN <<<<1, (j - m) + (m \div q) + r * (m % q), 1>>>>
    [] op \in {"tril", "triu"} ->
         LET n == Ax(S[1], 0)
             m == j % (n * n)
             row == m % n
             col == m \div n
             keep == IF op = "tril" THEN row - col >= u[1] ELSE col - row >= u[1]
         IN IF keep THEN <<<<1, j, 1>>>> ELSE <<>>
    [] op \in {"slice", "split"} ->
         LET lo   == Lower(S[1], u[1])
             n    == Ax(S[1], u[1])
             m    == Ax(y, u[1])
             from == IF op = "slice" THEN u[2] ELSE (oi - 1) * m
         IN <<<<1, (j % lo) + lo * (from + ((j \div lo) % m) + n * (j \div (lo * m))), 1>>>>
    [] op = "pick" ->
         LET lo  == Lower(S[1], u[1])
             n   == Ax(S[1], u[1])
             vy  == Vol(y)
             bt  == j \div vy
             jj  == j % vy
             id  == IF Len(u) = 2 THEN u[2] ELSE u[2 + bt]
             bx  == IF S[1].b = 1 THEN 0 ELSE bt
         IN <<<<1, bx * Vol(S[1]) + (jj % lo) + lo * (id + n * (jj \div lo)), 1>>>>
    [] op = "concat" ->
         LET lo == Lower(y, u[1])
             n  == Ax(y, u[1])
             vy == Vol(y)
             bt == j \div vy
             jj == j % vy
             pp == PartAt([k \in 1 .. Len(S) |-> Ax(S[k], u[1])], (jj \div lo) % n, 1)
             s  == S[pp[1]]
             bx == IF s.b = 1 THEN 0 ELSE bt
         IN <<<<pp[1], bx * Vol(s) + (jj % lo) + lo * (pp[2] + Ax(s, u[1]) * (jj \div (lo * n))), 1>>>>
    [] op \in {"reshape", "flatten"} -> <<<<1, j, 1>>>>
    [] op = "flip" ->
         LET n == Ax(S[1], u[1])
             p == PlaceIn(S[1], u[1], j)
         IN <<<<1, j + (n - 1 - 2 * p) * Lower(S[1], u[1]), 1>>>>
    \* axis k of the result is axis u[k] of the operand
    [] op = "permute" ->
         LET vy == Vol(y)
         IN <<<<1, (j - (j % vy)) + Sum([k \in 1 .. Len(u) |-> PlaceIn(y, k - 1, j % vy) * Lower(S[1], u[k])]), 1>>>>
    [] op \in {"batch_sum", "batch_mean"} -> [k \in 1 .. S[1].b |-> <<1, j + (k - 1) * Vol(S[1]), 1>>]
    [] op = "batch_slice" -> <<<<1, j + u[1] * Vol(S[1]), 1>>>>
    [] op = "batch_split" -> <<<<1, j + (oi - 1) * y.b * Vol(S[1]), 1>>>>
    [] op = "batch_pick" ->
         LET vy == Vol(y) IN <<<<1, (j % vy) + u[1 + (j \div vy)] * vy, 1>>>>
    [] op = "batch_concat" ->
         LET pp == PartAt([k \in 1 .. Len(S) |-> Size(S[k])], j, 1) IN <<<<pp[1], pp[2], 1>>>>
    [] op = "slice_sum" -> [k \in 1 .. Len(S) |-> <<k, BinAt(S[k], y, j), 1>>]

\* constant added to an affine operation
LinConst(op, c) == CASE op \in {"addcr", "addcl", "subcl"} -> c
                     [] op = "subcr" -> -c
                     [] OTHER -> 0
\* divisor of an affine operation
LinDiv(op, u, S) == CASE op = "mean" -> Ax(S[1], u[1])
                      [] op = "batch_mean" -> S[1].b
                      [] OTHER -> 1

-----------------------------------------------------------------------------
Elementwise == {"powi", "powf", "abs", "relu", "lrelu", "prelu", "elu", "divcr", "divcl", "sqrt", "sin",
                "cos", "tan", "exp", "ln", "tanh", "sigmoid", "softplus"}

\* f(v) for an elementwise operation; v at scale sx, result at scale sy
Elem(op, c, sx, sy, v) ==
  CASE op = "powi"  -> PowI(v, c, sy)
    [] op = "powf"  -> PowFix(v, c)
    [] op = "abs"   -> Abs(v) * sy
    [] op = "relu"  -> IF v > 0 THEN v * sy ELSE 0
    [] op = "lrelu" -> IF v > 0 THEN v * (sy \div sx) ELSE RDiv(v * (sy \div sx), 100)
    [] op = "prelu" -> IF v > 0 THEN v * sx ELSE v * c
    [] op = "elu"   -> IF v > 0 THEN v * (sy \div sx) ELSE RDiv(c * (ExpV(v) - FS), sx)
    [] op = "divcr" -> XDiv(sy * v, c)
    [] op = "divcl" -> XDiv(sy * c, v)
    [] op = "sqrt"  -> F(TSqrt, v)
    [] op = "sin"   -> F(TSin, v)
    [] op = "cos"   -> F(TCos, v)
    [] op = "tan"   -> F(TTan, v)
    [] op = "exp"   -> F(TExp, v)
    [] op = "ln"    -> F(TLn, v)
    [] op = "tanh"  -> F(TTanh, v)
    [] op = "sigmoid"  -> F(TSigmoid, v)
    [] op = "softplus" -> F(TSoftplus, v)
\* its derivative at scale sy
DElem(op, c, sx, sy, v) ==
  CASE op = "powi"  -> IF c = 0 THEN 0 ELSE c * PowI(v, c - 1, sy)
    [] op = "powf"  -> IF c = 0 THEN 0 ELSE RDiv(c * PowFix(v, c - 16), 16)
    [] op = "abs"   -> Sgn(v) * sy
    [] op = "relu"  -> IF v > 0 THEN sy ELSE 0
    [] op = "lrelu" -> IF v > 0 THEN sy ELSE RDiv(sy, 100)
    [] op = "prelu" -> IF v > 0 THEN sy ELSE (sy \div sx) * c
    [] op = "elu"   -> IF v > 0 THEN sy ELSE RDiv(c * ExpV(v), sx)
    [] op = "divcr" -> XDiv(sy, c)
    [] op = "divcl" -> -XDiv(sy * c, v * v)
    [] op = "sqrt"  -> F(TDSqrt, v)
    [] op = "sin"   -> F(TCos, v)
    [] op = "cos"   -> -F(TSin, v)
    [] op = "tan"   -> F(TDTan, v)
    [] op = "exp"   -> F(TExp, v)
    [] op = "ln"    -> RDiv(FS * sx, v)
    [] op = "tanh"  -> F(TDTanh, v)
    [] op = "sigmoid"  -> F(TDSigmoid, v)
    [] op = "softplus" -> F(TSigmoid, v)

-----------------------------------------------------------------------------
(* Normalisation: (x - m) / sqrt(v + eps), for the values q of one statistic,
   element x; all at scale sx, eps = e/256.  Result at scale 2^12.             *)
RECURSIVE Shift(_, _)
Shift(v, s) == IF v < 67108864 /\ s < 14 THEN Shift(v * 4, s + 1) ELSE s
NormFix(q, x, sx, e) ==
  LET n  == Len(q)
      sm == SumOf(q)
      D(z) == n * z - sm                                            \* scale sx*n
      v  == RDiv(SumOf([k \in 1 .. n |-> D(q[k]) * D(q[k])]), n)    \* scale (sx*n)^2
            + RDiv(e * sx * sx * n * n, 256)
      s  == Shift(v, 0)
      r  == ISqrt(v * 4 ^ s)                                        \* 2^s sqrt(v)
  IN RDiv(D(x) * 2 ^ s * 4096, r)

-----------------------------------------------------------------------------
(* The element at position j of output oi (y: the output's shape).              *)
Val(e, S, xs, y, oi, j) ==
  LET op == e.op
      u  == e.u
      c  == e.c
      sx == e.sx
      sy == e.sy
  IN
  CASE op \in Affine ->
         LET t == Lin(op, u, c, S, y, oi, j)
             s == SumOf([k \in 1 .. Len(t) |-> t[k][3] * At(xs[t[k][1]], t[k][2])])
         IN RDiv((s + LinConst(op, c)) * (sy \div sx), LinDiv(op, u, S))
    [] op \in Elementwise -> Elem(op, c, sx, sy, At(xs[1], j))
    [] op = "mul" -> sy * At(xs[1], BinAt(S[1], y, j)) * At(xs[2], BinAt(S[2], y, j))
    [] op = "div" -> XDiv(sy * At(xs[1], BinAt(S[1], y, j)), At(xs[2], BinAt(S[2], y, j)))
    [] op = "pow" -> PowFix(At(xs[1], BinAt(S[1], y, j)), At(xs[2], BinAt(S[2], y, j)))
    [] op = "matmul" ->
         LET n == Ax(S[1], 0)
             m == Ax(S[1], 1)
             p == Ax(S[2], 1)
             bt == j \div (n * p)
             i == j % n
             k == (j \div n) % p
             b1 == IF S[1].b = 1 THEN 0 ELSE bt * n * m
             b2 == IF S[2].b = 1 THEN 0 ELSE bt * m * p
         IN sy * SumOf([l \in 1 .. m |-> At(xs[1], b1 + i + n * (l - 1)) * At(xs[2], b2 + (l - 1) + m * k)])
    [] op = "max" -> sy * MaxOf(Line(xs[1], S[1], u[1], j))
    [] op = "min" -> sy * MinOf(Line(xs[1], S[1], u[1], j))
    [] op = "logsumexp"  -> LseFix(Line(xs[1], S[1], u[1], j))
    [] op = "ln_softmax" -> At(xs[1], j) * 1024 - LseFix(LineOf(xs[1], S[1], u[1], j))
    [] op = "softmax" -> SoftFix(LineOf(xs[1], S[1], u[1], j), PlaceIn(S[1], u[1], j) + 1)
    [] op = "sce" ->
         LET n  == Ax(S[1], u[1])
             vy == Vol(y)
             bt == j \div vy
             P(s, k) == (IF s.b = 1 THEN 0 ELSE bt * Vol(s)) + LineAt(s, u[1], j % vy, k)
             q  == [k \in 1 .. n |-> At(xs[1], P(S[1], k - 1))]
             l  == LseFix(q)
         IN RDiv(SumOf([k \in 1 .. n |-> At(xs[2], P(S[2], k - 1)) * (l - q[k] * 1024)]), 16)
    [] op = "ssce" ->
         LET vy == Vol(y)
             bt == j \div vy
             id == IF Len(u) = 2 THEN u[2] ELSE u[2 + bt]
             o  == IF S[1].b = 1 THEN 0 ELSE bt * Vol(S[1])
             q  == [k \in 1 .. Ax(S[1], u[1]) |-> At(xs[1], o + LineAt(S[1], u[1], j % vy, k - 1))]
         IN LseFix(q) - q[id + 1] * 1024
    [] op \in {"dropout", "dropout_dim"} ->           \* the value of an element that was kept
         IF u[1] = 0 THEN At(xs[1], j) * (sy \div sx)
         ELSE IF c >= sx THEN 0
         ELSE RDiv(At(xs[1], j) * sy, sx - c)
    [] op \in {"batch_norm", "layer_norm"} ->
         IF op = "batch_norm" /\ u[1] = 0 THEN At(xs[1], j) * (sy \div sx)
         ELSE LET xj == BinAt(S[1], y, j)
                  v  == Vol(S[1])
                  q  == IF op = "batch_norm"
                        THEN [k \in 1 .. S[1].b |-> At(xs[1], (xj % v) + (k - 1) * v)]
                        ELSE [k \in 1 .. v |-> At(xs[1], (xj \div v) * v + k - 1)]
                  h  == NormFix(q, At(xs[1], xj), sx, c * (256 \div sx))
              IN RDiv(At(xs[2], BinAt(S[2], y, j)) * h, sx) + At(xs[3], BinAt(S[3], y, j)) * (sy \div sx)

(* The derivatives of that element: <<operand, element, derivative at scale sy>>. *)
Partials(e, S, xs, y, oi, j) ==
  LET op == e.op
      u  == e.u
      c  == e.c
      sx == e.sx
      sy == e.sy
  IN
  CASE op \in Affine ->
         LET t == Lin(op, u, c, S, y, oi, j)
         IN [k \in 1 .. Len(t) |-> <<t[k][1], t[k][2], RDiv(t[k][3] * sy, LinDiv(op, u, S))>>]
    [] op \in Elementwise -> <<<<1, j, DElem(op, c, sx, sy, At(xs[1], j))>>>>
    [] op = "mul" ->
         LET ia == BinAt(S[1], y, j)
             ib == BinAt(S[2], y, j)
         IN <<<<1, ia, sy * At(xs[2], ib)>>, <<2, ib, sy * At(xs[1], ia)>>>>
    [] op = "div" ->
         LET ia == BinAt(S[1], y, j)
             ib == BinAt(S[2], y, j)
             a  == At(xs[1], ia)
             b  == At(xs[2], ib)
         IN <<<<1, ia, XDiv(sy, b)>>, <<2, ib, -XDiv(sy * a, b * b)>>>>
    [] op = "pow" ->
         LET ia == BinAt(S[1], y, j)
             ib == BinAt(S[2], y, j)
             a  == At(xs[1], ia)
             b  == At(xs[2], ib)
         IN <<<<1, ia, RDiv(b * PowFix(a, b - 16), 16)>>,
              <<2, ib, MulFix(PowFix(a, b), LnFix(a * 1024))>>>>
    [] op = "matmul" ->
         LET n == Ax(S[1], 0)
             m == Ax(S[1], 1)
             p == Ax(S[2], 1)
             bt == j \div (n * p)
             i == j % n
             k == (j \div n) % p
             b1 == IF S[1].b = 1 THEN 0 ELSE bt * n * m
             b2 == IF S[2].b = 1 THEN 0 ELSE bt * m * p
             I1(l) == b1 + i + n * (l - 1)
             I2(l) == b2 + (l - 1) + m * k
         IN [l \in 1 .. m |-> <<1, I1(l), sy * At(xs[2], I2(l))>>]
            \o [l \in 1 .. m |-> <<2, I2(l), sy * At(xs[1], I1(l))>>]
    [] op \in {"max", "min"} ->
         LET q == Line(xs[1], S[1], u[1], j)
             m == IF op = "max" THEN MaxOf(q) ELSE MinOf(q)
             k == CHOOSE k \in 1 .. Len(q) : q[k] = m /\ \A i \in 1 .. k - 1 : q[i] # m
         IN <<<<1, LineAt(S[1], u[1], j, k - 1), sy>>>>
    [] op = "logsumexp" ->
         LET q == Line(xs[1], S[1], u[1], j)
         IN [k \in 1 .. Len(q) |-> <<1, LineAt(S[1], u[1], j, k - 1), SoftFix(q, k)>>]
    [] op = "ln_softmax" ->
         LET q == LineOf(xs[1], S[1], u[1], j)
             i == PlaceIn(S[1], u[1], j) + 1
         IN [k \in 1 .. Len(q) |-> <<1, InLine(S[1], u[1], j, k - 1),
                                     (IF k = i THEN FS ELSE 0) - SoftFix(q, k)>>]
    [] op = "softmax" ->
         LET q == LineOf(xs[1], S[1], u[1], j)
             i == PlaceIn(S[1], u[1], j) + 1
             si == SoftFix(q, i)
         IN [k \in 1 .. Len(q) |-> <<1, InLine(S[1], u[1], j, k - 1),
                                     RDiv(si * ((IF k = i THEN FS ELSE 0) - SoftFix(q, k)), FS)>>]
    [] op = "sce" ->
         LET n  == Ax(S[1], u[1])
             vy == Vol(y)
             bt == j \div vy
             P(s, k) == (IF s.b = 1 THEN 0 ELSE bt * Vol(s)) + LineAt(s, u[1], j % vy, k)
             q  == [k \in 1 .. n |-> At(xs[1], P(S[1], k - 1))]
             t  == [k \in 1 .. n |-> At(xs[2], P(S[2], k - 1))]
             l  == LseFix(q)
         IN [k \in 1 .. n |-> <<1, P(S[1], k - 1), RDiv(SumOf(t) * SoftFix(q, k), 16) - t[k] * 1024>>]
            \o [k \in 1 .. n |-> <<2, P(S[2], k - 1), l - q[k] * 1024>>]
    [] op = "ssce" ->
         LET vy == Vol(y)
             bt == j \div vy
             id == IF Len(u) = 2 THEN u[2] ELSE u[2 + bt]
             o  == IF S[1].b = 1 THEN 0 ELSE bt * Vol(S[1])
             I(k) == o + LineAt(S[1], u[1], j % vy, k - 1)
             q  == [k \in 1 .. Ax(S[1], u[1]) |-> At(xs[1], I(k))]
         IN [k \in 1 .. Len(q) |-> <<1, I(k), SoftFix(q, k) - (IF k = id + 1 THEN FS ELSE 0)>>]
    [] op \in {"dropout", "dropout_dim"} ->
         IF u[1] = 0 THEN <<<<1, j, sy>>>>
         ELSE IF c >= sx THEN <<>>
         ELSE IF e.mask[j + 1] = 0 THEN <<>> ELSE <<<<1, j, RDiv(sx * sy, sx - c)>>>>
    [] op \in {"batch_norm", "layer_norm"} ->
         IF op = "batch_norm" /\ u[1] = 0 THEN <<<<1, j, sy>>>>
         ELSE LET xj == BinAt(S[1], y, j)
                  v  == Vol(S[1])
                  I(k) == IF op = "batch_norm" THEN (xj % v) + (k - 1) * v ELSE (xj \div v) * v + k - 1
                  n  == IF op = "batch_norm" THEN S[1].b ELSE v
                  q  == [k \in 1 .. n |-> At(xs[1], I(k))]
                  ep == c * (256 \div sx)
                  h  == [k \in 1 .. n |-> NormFix(q, q[k], sx, ep)]           \* normalised, 2^12
                  hj == NormFix(q, At(xs[1], xj), sx, ep)
                  \* 1/sqrt(v+eps) at 2^12
                  sm == SumOf(q)
                  w  == RDiv(SumOf([k \in 1 .. n |-> (n * q[k] - sm) * (n * q[k] - sm)]), n)
                        + RDiv(ep * sx * sx * n * n, 256)
                  s  == Shift(w, 0)
                  r  == RDiv(sx * n * 2 ^ s * 4096, ISqrt(w * 4 ^ s))
                  g  == At(xs[2], BinAt(S[2], y, j))
              IN [k \in 1 .. n |->
                    <<1, I(k),
                      RDiv(RDiv(g * r, sx)
                           * ((IF I(k) = xj THEN 4096 ELSE 0) - RDiv(4096, n) - RDiv(RDiv(hj * h[k], 4096), n)),
                           4096)>>]
                 \o <<<<2, BinAt(S[2], y, j), hj>>, <<3, BinAt(S[3], y, j), sy>>>>
=============================================================================
