----------------------------- MODULE TraceGraph -----------------------------
(* Trace of sessions: a graph is built, evaluated and back-propagated while the same program
   runs on eager tensors.  IOEnv.ASPECT is what is checked:
     lazy   C06: which operations run, when, and that stored values never change
     back   C07, C08: order and completeness of back-propagation, total derivatives
     eager  C20: nodes and eager tensors agree, inputs keep their values

   The state is the graph: per operation its attributes, arguments, ancestors and (when
   its elements are integers) the elements of its outputs; the operations evaluated so
   far; values seen; and the gradient of every parameter.                           *)
EXTENDS Tensors, Graph, IOUtils, Json

Trace  == ndJsonDeserialize(IOEnv.TRACE)
Aspect == IOEnv.ASPECT

VARIABLES l, ops, done, seen, grad
vars == <<l, ops, done, seen, grad>>

Leaf(e) == [op |-> "leaf", kind |-> e.kind, args |-> <<>>, known |-> 1, probed |-> 0,
            anc |-> {Len(ops) + 1}, outs |-> <<[d |-> Canon(e.x.d), b |-> e.x.b]>>, tv |-> <<e.x.v>>]
\* a disabled batch normalisation is its first operand
Needed(e) == IF e.op = "batch_norm" /\ e.u[1] = 0 THEN 1 ELSE Len(e.args)
Oper(e) == [op |-> e.op, u |-> e.u, c |-> e.c, sx |-> 1, sy |-> 1, args |-> e.args, known |-> e.known,
            probed |-> e.probed, outs |-> e.tsh, tv |-> e.tv,
            anc |-> {Len(ops) + 1} \cup UNION {ops[e.args[k][1]].anc : k \in 1 .. Needed(e)}]
Applied(e) == IF e.k = "leaf" THEN Leaf(e) ELSE Oper(e)

Init == l = 0 /\ ops = <<>> /\ done = {} /\ seen = <<>> /\ grad = <<>>
\* parameters' gradients after the event, as recorded (validated by Conforms)
GradOf(e) == [k \in 1 .. Len(e.grads) |-> e.grads[k]]
Next ==
  /\ l < Len(Trace)
  /\ l' = l + 1
  /\ \E e \in {Trace[l + 1]} :
     CASE e.k = "new"  -> ops' = <<>> /\ done' = {} /\ seen' = <<>> /\ grad' = <<>>
       [] e.k = "leaf" -> /\ ops' = Append(ops, Leaf(e))
                          /\ grad' = IF e.kind = "par" THEN Append(grad, <<Len(ops) + 1, e.g>>) ELSE grad
                          /\ UNCHANGED <<done, seen>>
       [] e.k = "op"   -> /\ ops' = IF e.ok = 1 /\ e.okt = 1 THEN Append(ops, Oper(e)) ELSE ops
                          /\ UNCHANGED <<done, seen, grad>>
       [] e.k = "get"  -> /\ done' = done \cup ops[e.o].anc
                          /\ seen' = IF e.ok = 1 THEN Append(seen, <<e.o, e.i, e.y.v>>) ELSE seen
                          /\ UNCHANGED <<ops, grad>>
       [] e.k = "back" -> /\ done' = done \cup ops[e.o].anc
                          /\ grad' = IF e.ok = 1 THEN e.grads ELSE grad
                          /\ UNCHANGED <<ops, seen>>
       [] OTHER -> UNCHANGED <<ops, done, seen, grad>>
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
Probed(set) == {o \in set : ops[o].probed = 1}
\* no operation runs before one it depends on
InputsFirst(log) == \A k \in 1 .. Len(log) : \A j \in k + 1 .. Len(log) : log[j] \notin ops[log[k]].anc
\* no operation runs before one that depends on it
ConsumersFirst(log) == \A k \in 1 .. Len(log) : \A j \in 1 .. k - 1 : log[j] \notin ops[log[k]].anc
Forward(e) == RunsOnce(e.fw, Probed(ops[e.o].anc \ done)) /\ InputsFirst(e.fw)
Backward(e) == RunsOnce(e.bw, Probed(ops[e.o].anc)) /\ ConsumersFirst(e.bw)

OperandShapes(a) == [k \in 1 .. Len(a) |-> ops[a[k][1]].outs[a[k][2]]]
OperandsOf(a) == [k \in 1 .. Len(a) |-> LET s == ops[a[k][1]].outs[a[k][2]]
                                        IN [d |-> s.d, b |-> s.b, v |-> ops[a[k][1]].tv[a[k][2]]]]
\* the probe: output oi is a linear combination of all arguments, element by element
ProbeCoef(u, n, oi, k) == u[(oi - 1) * n + k] - 4
ValidOp(e) ==
  IF e.op = "probe" THEN LET S == OperandShapes(e.args) IN \A k \in 1 .. Len(S) : S[k] = S[1]
  ELSE Valid(e.op, e.u, e.c, 1, OperandShapes(e.args))
ShapesOp(e) ==
  IF e.op = "probe" THEN [j \in 1 .. Len(e.u) \div Len(e.args) |-> OperandShapes(e.args)[1]]
  ELSE ShapesOf(e.op, e.u, e.c, 1, OperandShapes(e.args))
ValueOp(e, S, xs, y, oi, j) ==
  IF e.op = "probe" THEN SumOf([k \in 1 .. Len(xs) |-> ProbeCoef(e.u, Len(xs), oi, k) * At(xs[k], j)])
  ELSE Val([e EXCEPT !.sx = 1], S, xs, y, oi, j)
PartialsOp(o, S, xs, y, oi, j) ==
  IF o.op = "probe" THEN [k \in 1 .. Len(xs) |-> <<k, j, ProbeCoef(o.u, Len(xs), oi, k)>>]
  ELSE Partials(o, S, xs, y, oi, j)

-----------------------------------------------------------------------------
(* The total derivative of the sum of output i of operation o: every operation, latest
   first, hands what arrived at its outputs to its operands.                        *)
Zeros(set) == [o \in 1 .. Len(ops) |->
                IF o \in set THEN [i \in 1 .. Len(ops[o].outs) |-> [p \in 1 .. Size(ops[o].outs[i]) |-> 0]] ELSE <<>>]
Terms(r, g) ==        \* what one operation hands on: <<operand, element, amount>>
  LET S  == TLCEval([k \in 1 .. Len(r.args) |-> ops[r.args[k][1]].outs[r.args[k][2]]])
      xs == TLCEval(OperandsOf(r.args))
      One(oi, j) == LET w == g[oi][j + 1]
                        p == PartialsOp(r, S, xs, r.outs[oi], oi, j)
                    IN IF w = 0 THEN <<>> ELSE [k \in 1 .. Len(p) |-> <<p[k][1], p[k][2], p[k][3] * w>>]
      Out(oi) == FoldLeft(LAMBDA a, j : a \o One(oi, j - 1), <<>>, [j \in 1 .. Len(g[oi]) |-> j])
  IN FoldLeft(LAMBDA a, oi : a \o Out(oi), <<>>, [oi \in 1 .. Len(g) |-> oi])
HandOn(g, o) ==
  LET r == ops[o]
      t == TLCEval(Terms(r, g[o]))
  IN FoldLeft(LAMBDA h, x : [h EXCEPT ![r.args[x[1]][1]][r.args[x[1]][2]][x[2] + 1] = @ + x[3]], g, t)
Latest(set) == CHOOSE o \in set : \A q \in set : q <= o
RECURSIVE Sweep(_, _)
Sweep(g, set) == IF set = {} THEN g
                 ELSE LET o == Latest(set) IN Sweep(TLCEval(HandOn(g, o)), set \ {o})
Total(o, i) ==
  LET anc  == ops[o].anc
      z    == TLCEval(Zeros(anc))
      seed == [z EXCEPT ![o][i] = [p \in 1 .. Len(z[o][i]) |-> 1]]
  IN Sweep(seed, {q \in anc : ops[q].args # <<>>})
GradsOk(e) ==
  LET g == TLCEval(Total(e.o, e.i))
  IN /\ Len(e.grads) = Len(grad)
     /\ \A k \in 1 .. Len(grad) :
          LET id  == grad[k][1]
              old == grad[k][2]
              new == e.grads[k][2]
          IN /\ e.grads[k][1] = id
             /\ Len(new) = Len(old)
             /\ \A p \in 1 .. Len(old) :
                  new[p] = old[p] + IF id \in ops[e.o].anc THEN g[id][1][p] ELSE 0

-----------------------------------------------------------------------------
SameTensor(y, s, v) == y.d = s.d /\ y.b = s.b /\ y.v = v
LazyOk(e) ==
  CASE e.k = "op"   -> e.fw = <<>> /\ (e.ok = 1 => e.lazy = 0)
    [] e.k = "get"  -> /\ e.ok = 1
                       /\ e.bw = <<>>
                       /\ Forward(e)
                       /\ IF e.known = 1 THEN SameTensor(e.y, ops[e.o].outs[e.i], ops[e.o].tv[e.i])
                          ELSE \A k \in 1 .. Len(seen) :
                                 (seen[k][1] = e.o /\ seen[k][2] = e.i) => seen[k][3] = e.y.v
    [] e.k = "back" -> e.ok = 1 /\ Forward(e)
    [] OTHER -> TRUE
BackOk(e) ==
  CASE e.k = "back" -> e.ok = 1 /\ Backward(e) /\ GradsOk(e)
    [] e.k \in {"get", "op"} -> TRUE
    [] e.k = "end"  -> e.grads = grad
    [] OTHER -> TRUE
Close(a, b) == Len(a) = Len(b) /\ \A p \in 1 .. Len(a) :
                 LET d == a[p] - b[p] IN a[p] = b[p] \/ (Abs(a[p]) < 1900000000 /\ Abs(b[p]) < 1900000000
                                                        /\ Abs(d) <= 4 + Abs(a[p]) \div 4096)
EagerOk(e) ==
  CASE e.k = "op" ->
         LET v == TLCEval(ValidOp(e)) IN
         /\ e.ok = IF v THEN 1 ELSE 0
         /\ e.okt = e.ok
         /\ v => LET R == TLCEval(ShapesOp(e))
                     S == TLCEval(OperandShapes(e.args))
                     xs == TLCEval(OperandsOf(e.args))
                 IN /\ e.outs = e.tsh
                    /\ e.tsh = R
                    /\ e.known = 1 =>
                         \A i \in 1 .. Len(R) :
                            /\ Len(e.tv[i]) = Size(R[i])
                            /\ \A j \in 1 .. Size(R[i]) : e.tv[i][j] = ValueOp(e, S, xs, R[i], i, j - 1)
    [] e.k = "get"  -> /\ e.ok = 1
                       /\ e.y.d = e.t.d /\ e.y.b = e.t.b
                       /\ e.known = 1 => e.y.v = e.t.v
    [] e.k = "pair" -> e.ok = 1 /\ Len(e.y) = Len(e.t) /\ \A i \in 1 .. Len(e.y) : Close(e.y[i], e.t[i])
    [] e.k = "back" -> e.ok = 1
    [] e.k = "end"  -> \A k \in 1 .. Len(e.leaves) : ops[e.leaves[k][1]].tv[1] = e.leaves[k][2]
    [] OTHER -> TRUE
EventOk(e) ==
  CASE Aspect = "lazy" -> LazyOk(e)
    [] Aspect = "back" -> BackOk(e)
    [] Aspect = "eager" -> EagerOk(e)

Conforms == l = Len(Trace) \/ EventOk(Trace[l + 1]) \/ (PrintT(<<"REJECT", l + 1>>) /\ TLCSet(1, 1))
Accepted == TLCGet("stats").diameter - 1 = Len(Trace) /\ TLCGet(1) = 0
ASSUME TLCSet(1, 0)
=============================================================================
