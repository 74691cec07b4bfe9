------------------------------ MODULE TraceOps -------------------------------
(* Trace specification: every recorded call of an operation (eager, as a node, or
   backwards) must be one that the operation tables of Shapes/Tensors allow.
   IOEnv.TRACE is the trace, IOEnv.ASPECT what is checked of each call:
     accept  acceptance and shapes          (C02)
     value   results of valid calls         (C03, C19, C21, C23)
     grad    vector-Jacobian products       (C05, C19)                          *)
EXTENDS Tensors, TLC, IOUtils, Json

Trace  == ndJsonDeserialize(IOEnv.TRACE)
Aspect == IOEnv.ASPECT

VARIABLES l, calls
vars == <<l, calls>>

Shapes_(e) == LET s == [k \in 1 .. Len(e.xs) |-> Shape(e.xs[k])]
              IN IF e.al = 1 THEN <<s[1], s[1]>> ELSE s
Operands(e) == IF e.al = 1 THEN <<e.xs[1], e.xs[1]>> ELSE e.xs
ValidCall(e) == Valid(e.op, e.u, e.c, e.sx, Shapes_(e))
Results(e)   == ShapesOf(e.op, e.u, e.c, e.sx, Shapes_(e))
ArgOps == {"argmax", "argmin", "argsort"}

Near(x, want, tol) == x >= want - tol /\ x <= want + tol
Tol(e, want) == IF e.ex = 1 THEN 0 ELSE 8 + Abs(want) \div 4096

SameShape(y, s) == y.d = s.d /\ y.b = s.b
ShapesMatch(e) ==
  LET R == Results(e) IN Len(e.ys) = Len(R) /\ \A i \in 1 .. Len(R) : SameShape(e.ys[i], R[i])

(* acceptance: exactly the valid calls; a node decides at construction, without evaluating *)
AcceptOk(e) ==
  LET v == ValidCall(e) IN
  /\ e.ok = (IF v THEN 1 ELSE 0)
  /\ e.m = "n" => (e.okc >= 1) = v
  /\ (v /\ e.op \notin ArgOps) => ShapesMatch(e)
  /\ (v /\ e.op \notin ArgOps /\ e.m = "n") =>
        LET R == Results(e) IN Len(e.cs) = Len(R) /\ \A i \in 1 .. Len(R) : SameShape(e.cs[i], R[i])

ElementsOk(e, y, r, oi) ==
  LET S  == Shapes_(e)
      xs == Operands(e)
      ok(pos, got) == LET w == Val(e, S, xs, r, oi, pos) IN Near(got, w, Tol(e, w))
  IN /\ y.n = Size(r)
     /\ IF "p" \in DOMAIN y
        THEN \A k \in 1 .. Len(y.p) : ok(y.p[k][1], y.p[k][2])
        ELSE Len(y.v) = Size(r) /\ \A j \in 1 .. Size(r) : ok(j - 1, y.v[j])

(* argmax/argmin: first extreme position of each line; argsort: see below.
   The result list is ys[1]; sampled positions for large tensors.               *)
ArgOk(e) ==
  LET x == e.xs[1]
      s == Shape(x)
      i == e.u[1]
      y == e.ys[1]
      n == Ax(s, i)
      lines == Size(s) \div n
      Ext(j, got) ==
        LET q == Line(x, s, i, j)
            m == IF e.op = "argmax" THEN MaxOf(q) ELSE MinOf(q)
        IN /\ got >= 0 /\ got < n
           /\ q[got + 1] = m
           /\ \A k \in 1 .. got : q[k] # m
  IN IF e.op # "argsort"
     THEN /\ y.n = lines
          /\ IF "p" \in DOMAIN y
             THEN \A k \in 1 .. Len(y.p) : Ext(y.p[k][1], y.p[k][2])
             ELSE \A j \in 1 .. lines : Ext(j - 1, y.v[j])
     ELSE /\ y.n = Size(s)
          /\ IF "p" \in DOMAIN y
             THEN \A k \in 1 .. Len(y.p) :
                    LET p == y.p[k][1]
                        g == y.p[k][2]
                        q == LineOf(x, s, i, p)
                        r == PlaceIn(s, i, p)                 \* this is the r-th smallest
                        v == q[PlaceIn(s, i, g) + 1]
                    IN /\ g >= 0 /\ g < Size(s)
                       /\ InLine(s, i, g, 0) = InLine(s, i, p, 0)
                       /\ FoldLeft(LAMBDA a, z : IF z < v THEN a + 1 ELSE a, 0, q) <= r
                       /\ FoldLeft(LAMBDA a, z : IF z <= v THEN a + 1 ELSE a, 0, q) > r
             ELSE \A j \in 1 .. lines :
                    LET got == [k \in 1 .. n |-> y.v[LineAt(s, i, j - 1, k - 1) + 1]]
                    IN /\ {got[k] : k \in 1 .. n} = {LineAt(s, i, j - 1, k - 1) : k \in 1 .. n}
                       /\ \A k \in 1 .. n - 1 : At(x, got[k]) <= At(x, got[k + 1])

(* dropout: every element is zero or the kept value; a whole line goes together *)
Drops(e) == e.op \in {"dropout", "dropout_dim"} /\ e.u[1] # 0 /\ e.c < e.sx /\ e.c > 0
DropOk(e, y, r) ==
  LET S == Shapes_(e)
      x == e.xs[1]
      n == IF e.op = "dropout" THEN 1 ELSE Ax(r, e.u[2])
      kept(pos, got) == LET w == Val(e, S, e.xs, r, 1, pos) IN Near(got, w, Tol(e, w))
      OkAt(pos, got) == got = 0 \/ kept(pos, got)
  IN /\ y.n = Size(r)
     /\ IF "p" \in DOMAIN y
        THEN \A k \in 1 .. Len(y.p) : OkAt(y.p[k][1], y.p[k][2])
        ELSE /\ Len(y.v) = Size(r)
             /\ \A j \in 1 .. Size(r) : OkAt(j - 1, y.v[j])
             /\ e.op = "dropout_dim" =>
                  \A j \in 0 .. (Size(r) \div n) - 1 :
                     \E b \in {0, 1} : \A k \in 0 .. n - 1 :
                        LET p == LineAt(r, e.u[2], j, k)
                        IN At(x, p) = 0 \/ (y.v[p + 1] # 0) = (b = 1)

ValueOk(e) ==
  ValidCall(e) =>
    /\ e.ok = 1
    /\ IF e.op \in ArgOps THEN ArgOk(e)
       ELSE /\ ShapesMatch(e)
            /\ LET R == Results(e) IN \A i \in 1 .. Len(R) :
                 IF Drops(e) THEN DropOk(e, e.ys[i], R[i]) ELSE ElementsOk(e, e.ys[i], R[i], i)

-----------------------------------------------------------------------------
(* Gradients.  e.gys: per output a list of <<position, weight>>.  Contributions are
   <<operand, element, weight * derivative>>.                                    *)
Contribs(e) ==
  LET S  == Shapes_(e)
      xs == Operands(e)
      R  == Results(e)
      One(oi, g) ==
        LET p == Partials(e, S, xs, R[oi], oi, g[1])
        IN [k \in 1 .. Len(p) |-> <<IF e.al = 1 THEN 1 ELSE p[k][1], p[k][2], p[k][3] * g[2]>>]
      Out(oi) == FoldLeft(LAMBDA a, g : a \o One(oi, g), <<>>, e.gys[oi])
  IN FoldLeft(LAMBDA a, oi : a \o Out(oi), <<>>, [oi \in 1 .. Len(e.gys) |-> oi])


\* per operand: element -> <<sum of the contributions, their tolerance>>
Totals(e, C) ==
  LET zero == [a \in 1 .. Len(e.xs) |-> [i \in 0 .. Size(Shape(e.xs[a])) - 1 |-> <<0, 8>>]]
      Add(f, t) == [f EXCEPT ![t[1]][t[2]] = <<@[1] + t[3], @[2] + 4 + Abs(t[3]) \div 4096>>]
  IN FoldLeft(Add, zero, C)

GradOk(e) ==
  LET C == TLCEval(Contribs(e))
      W == TLCEval(Totals(e, C))
      Old(a, i) == IF e.gx0 = <<>> THEN 0 ELSE At(e.gx0[a], i) * e.sy
      Ok(a, i, old, got) == Near(got, old + W[a][i][1], IF e.ex = 1 THEN 0 ELSE W[a][i][2])
      R == Results(e)
  IN \* a forward pass that fails is not this property's business
     e.fw = 1 =>
     /\ e.ok = 1
     /\ \A oi \in 1 .. Len(R) : e.ns[oi] = Size(R[oi])
     /\ Len(e.gx) = Len(e.xs)
     /\ \A a \in 1 .. Len(e.xs) :
          LET n == Size(Shape(e.xs[a]))
              g == e.gx[a]
          IN /\ g.n = n
             /\ IF "p" \in DOMAIN g
                THEN LET logged  == TLCEval({g.p[k][1] : k \in 1 .. Len(g.p)})
                     IN /\ \A k \in 1 .. Len(g.p) : Ok(a, g.p[k][1], Old(a, g.p[k][1]), g.p[k][2])
                        /\ \A i \in 0 .. n - 1 : W[a][i][1] = 0 \/ i \in logged \/ Ok(a, i, 0, 0)
                ELSE \A i \in 0 .. n - 1 : Ok(a, i, Old(a, i), g.v[i + 1])

-----------------------------------------------------------------------------
(* What the call did to memory.  e.mem: caps (size of every block), own (blocks owned when it
   started: <<block, elements, role>>, role 2 for what it may modify), w (ranges of cells that
   changed: <<block, first, last>>), hit (blocks written to that the call may not write to, also
   when their old contents were put back), res (blocks of the results).  Only results and targets
   may change, no cell outside a block, and no result may lie in a block that has an owner. *)
MemOk(e) ==
  LET m       == e.mem
      owned   == {m.own[k][1] : k \in 1 .. Len(m.own)}
      targets == {m.own[k][1] : k \in {j \in 1 .. Len(m.own) : m.own[j][3] = 2 /\ e.ok = 1}}
  IN /\ m.zones = 1
     /\ m.hit = <<>>
     /\ \A k \in 1 .. Len(m.w) :
          LET b == m.w[k][1]
          IN /\ b \in owned => b \in targets
             /\ m.w[k][2] >= 0 /\ m.w[k][3] < m.caps[b]
     /\ Cardinality(owned) = Len(m.own)
     /\ \A k \in 1 .. Len(m.res) :
          /\ m.res[k][1] \notin owned
          /\ m.res[k][2] <= m.caps[m.res[k][1]]
          /\ \A j \in 1 .. k - 1 : m.res[j][1] # m.res[k][1]
MemoryOk(e) ==
  /\ "mem" \in DOMAIN e => MemOk(e)
  /\ IF e.k = "op" THEN ValueOk(e) ELSE GradOk(e)

\* threads sharing a device (C24): every call as if alone, and all memory back in the end
AcctOk(e) == e.hung = 0 /\ e.made = e.back /\ e.bad = 0 /\ e.kept = 1 /\ e.zones = 1

-----------------------------------------------------------------------------
(* The functions of a device, called directly (e.k = "dev").  e.way: f forwards, bw backwards,
   s assignment, t reset, v reading; e.st: which form of two operands the function is for
   (e equal axes, l/r/k the first/second/first is a scalar); backwards, e.y, e.gy and e.g0 are
   the result's shape, the upstream gradient and the accumulated gradient of operand e.wh, and
   a gradient function that takes no operand has its accumulated gradient for one.
   e.bare: an operand or the target has no storage.                                        *)
Form(e) ==
  LET S == Shapes_(e)
  IN CASE e.st = "e" -> SameAxes(S[1], S[2])
       [] e.st = "r" -> Scalar(S[2])
       [] e.st \in {"l", "k"} -> Scalar(S[1])
       [] OTHER -> TRUE
ResetOps == {"reset", "reset_slice", "reset_tensor", "to_float", "to_vector"}
DevFits(e) ==
  LET S == Shapes_(e)
  IN CASE e.op \in {"reset_slice", "reset_tensor"} -> Size(S[1]) = Size(S[2])
       [] e.op = "to_float" -> Size(S[1]) = 1
       [] e.op \in {"reset", "to_vector"} -> TRUE
       [] OTHER -> /\ Form(e)
                   /\ ValidCall(e)
                   /\ e.way = "bw" => LET R == Results(e)[1]
                                     IN SameShape(e.y, R) /\ SameShape(Shape(e.gy), R) /\ SameShape(Shape(e.g0), S[e.wh])
Cells(y, s, Want(_)) == SameShape(y, s) /\ y.n = Size(s) /\ \A i \in 1 .. Size(s) : y.v[i] = Want(i - 1)
DevValue(e) ==
  LET S == Shapes_(e)
  IN CASE e.op = "reset"        -> Cells(e.ys[1], S[1], LAMBDA i : e.c)
       [] e.op \in {"reset_slice", "reset_tensor"} -> Cells(e.ys[1], S[1], LAMBDA i : At(e.xs[2], i))
       [] e.op = "to_vector"    -> Cells(e.ys[1], S[1], LAMBDA i : At(e.xs[1], i))
       [] e.op = "to_float"     -> e.ys[1].v = <<At(e.xs[1], 0)>>
       [] e.way = "bw" ->
            LET C == TLCEval(Contribs(e))
                n == Size(S[e.wh])
                zero == [i \in 0 .. n - 1 |-> <<0, 8>>]
                Add(f, t) == IF t[1] = e.wh THEN [f EXCEPT ![t[2]] = <<@[1] + t[3], @[2] + 4 + Abs(t[3]) \div 4096>>] ELSE f
                W == TLCEval(FoldLeft(Add, zero, C))
            IN /\ SameShape(e.ys[1], S[e.wh])
               /\ e.ys[1].n = n
               /\ \A i \in 0 .. n - 1 :
                    Near(e.ys[1].v[i + 1], At(e.g0, i) * e.sy + W[i][1], IF e.ex = 1 THEN 0 ELSE W[i][2])
       [] OTHER -> ValueOk(e)
DevOk(e) ==
  LET v == e.bare = 0 /\ DevFits(e)
  IN /\ e.ok = (IF v THEN 1 ELSE 0)
     /\ e.kept = 1
     /\ v => DevValue(e)
     /\ "mem" \in DOMAIN e => MemOk(e)

EventOk(e) ==
  CASE e.k = "dev" -> DevOk(e)
    [] e.k = "acct"       -> AcctOk(e)
    [] Aspect = "threads" -> e.same = 1 /\ "unstable" \notin DOMAIN e /\ (IF e.k = "op" THEN AcceptOk(e) /\ ValueOk(e) ELSE GradOk(e))
    [] Aspect = "memory" -> MemoryOk(e)
    [] Aspect = "accept" -> AcceptOk(e)
    [] Aspect = "value"  -> IF e.k = "op" THEN ValueOk(e) ELSE GradOk(e)

(* Every call is a step of the specification; whether the table allows it is decided by
   the state constraint (TLC keeps LET values only while it evaluates state predicates),
   which lists every call that is not allowed.                                      *)
Init == l = 0 /\ calls = 0
Call == /\ l < Len(Trace)
        /\ l' = l + 1
        /\ calls' = calls + 1
Next == Call
Spec == Init /\ [][Next]_vars
Conforms == l = 0 \/ EventOk(Trace[l]) \/ (PrintT(<<"REJECT", l>>) /\ TLCSet(1, 1))
Accepted == TLCGet("stats").diameter - 1 = Len(Trace) /\ TLCGet(1) = 0
ASSUME TLCSet(1, 0)
=============================================================================
