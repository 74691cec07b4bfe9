------------------------------ MODULE GraphAlg ------------------------------
(* How graph.rs evaluates and back-propagates, over scalar linear operations, next to
   the oracle: the derivative as a sum over all paths.  Every output j of an operation
   is  sum over its arguments k of Coef(j, k) * argument.

   Operation 1 .. Leaves are parameters.  Forward: breadth-first search from the target, then by
   increasing depth, skipping what was evaluated.  Backward: the same search resets the
   stored gradients, seeds the target's, and goes by decreasing depth.            *)
EXTENDS Graph, Json

CONSTANTS Leaves, MaxOps, MaxRequests, Emit
VARIABLES args, nout,        \* the graph
          depth, done,       \* per operation
          stored,            \* gradients left in the graph, per operation and output
          pgrad, want,       \* parameter gradients: by the algorithm, by the oracle
          fwlog, bwlog,      \* what the last request ran
          pre,               \* `done` before the last request
          hist
vars == <<args, nout, depth, done, stored, pgrad, want, fwlog, bwlog, pre, hist>>

Coef(j, k) == 2 * j + k - 2      \* 1, 2, 3, 4 ...: different for every output and argument
Outs(o)    == 1 .. nout[o]
NodesOf    == UNION {{<<o, i>> : i \in Outs(o)} : o \in 1 .. Len(args)}

\* derivative of output i of operation o with respect to parameter p: sum over all paths
RECURSIVE D(_, _, _)
D(o, i, p) == IF o <= Leaves THEN (IF o = p THEN 1 ELSE 0)
              ELSE FoldLeft(LAMBDA s, k : s + Coef(i, k) * D(args[o][k][1], args[o][k][2], p), 0,
                            [k \in 1 .. Len(args[o]) |-> k])

Init == /\ args = [o \in 1 .. Leaves |-> <<>>]
        /\ nout = [o \in 1 .. Leaves |-> 1]
        /\ depth = [o \in 1 .. Leaves |-> 1]
        /\ done = {}
        /\ stored = [o \in 1 .. Leaves |-> <<0>>]
        /\ pgrad = [o \in 1 .. Leaves |-> 0]
        /\ want = [o \in 1 .. Leaves |-> 0]
        /\ fwlog = <<>> /\ bwlog = <<>> /\ pre = {}
        /\ hist = <<>>

\* requests made so far
Requests == Len(SelectSeq(hist, LAMBDA h : h.a # "op"))
Ops == Len(args) - Leaves

Create == /\ Ops < MaxOps
          /\ Requests < MaxRequests
          /\ \E as \in [1 .. 1 -> NodesOf] \cup [1 .. 2 -> NodesOf], n \in 1 .. 2 :
               /\ args' = Append(args, as)
               /\ nout' = Append(nout, n)
               /\ depth' = Append(depth, 1 + FoldLeft(LAMBDA m, k : IF depth[as[k][1]] > m THEN depth[as[k][1]] ELSE m,
                                                      0, [k \in 1 .. Len(as) |-> k]))
               /\ stored' = Append(stored, [i \in 1 .. n |-> 0])
               /\ hist' = Append(hist, [a |-> "op", args |-> as, n |-> n])
          /\ fwlog' = <<>> /\ bwlog' = <<>> /\ pre' = done
          /\ UNCHANGED <<done, pgrad, want>>

\* an order of the set by depth; among equals any order (the heap's order is unspecified)
RECURSIVE ByDepth(_, _)
ByDepth(set, up) ==
  IF set = {} THEN {<<>>}
  ELSE LET best == {o \in set : \A q \in set : IF up THEN depth[o] <= depth[q] ELSE depth[o] >= depth[q]}
           o == CHOOSE o \in best : \A q \in best : o <= q       \* one representative
       IN {<<o>> \o r : r \in ByDepth(set \ {o}, up)}

ForwardRun(o) == CHOOSE q \in ByDepth(Anc(args, o) \ done, TRUE) : TRUE

Get == /\ Requests < MaxRequests
       /\ \E o \in Leaves + 1 .. Len(args) : \E i \in Outs(o) :
            /\ fwlog' = ForwardRun(o)
            /\ done' = done \cup Anc(args, o)
            /\ hist' = Append(hist, [a |-> "get", o |-> o, i |-> i])
       /\ bwlog' = <<>> /\ pre' = done
       /\ UNCHANGED <<args, nout, depth, stored, pgrad, want>>

\* backward of one operation: adds to the stored gradients of its arguments
Propagate(st, o) ==
  LET pairs == [k \in 1 .. Len(args[o]) |-> k]
  IN FoldLeft(LAMBDA s, k :
        [s EXCEPT ![args[o][k][1]][args[o][k][2]] =
            @ + FoldLeft(LAMBDA t, i : t + Coef(i, k) * st[o][i], 0, [i \in Outs(o) |-> i])],
        st, pairs)
Back == /\ Requests < MaxRequests
        /\ \E o \in Leaves + 1 .. Len(args) : \E i \in Outs(o) :
             LET set   == Anc(args, o)
                 order == CHOOSE q \in ByDepth(set, FALSE) : TRUE
                 reset == [x \in 1 .. Len(args) |-> [j \in Outs(x) |-> IF x \in set THEN 0 ELSE stored[x][j]]]
                 seed  == [reset EXCEPT ![o][i] = 1]
                 final == FoldLeft(Propagate, seed, order)
             IN /\ fwlog' = ForwardRun(o)
                /\ done' = done \cup set
                /\ bwlog' = order
                /\ stored' = final
                /\ pgrad' = [p \in 1 .. Leaves |-> pgrad[p] + IF p \in set THEN final[p][1] ELSE 0]
                /\ want' = [p \in 1 .. Leaves |-> want[p] + D(o, i, p)]
                /\ hist' = Append(hist, [a |-> "back", o |-> o, i |-> i])
        /\ pre' = done
        /\ UNCHANGED <<args, nout, depth>>
Next == Create \/ Get \/ Back
Spec == Init /\ [][Next]_vars

\* C07, C08: the algorithm accumulates exactly the sum of the targets' own derivatives
Derivative == pgrad = want
\* C06: exactly the missing operations, once, after their inputs; nothing at construction
Latest == hist[Len(hist)]
Lazy == hist # <<>> =>
  IF Latest.a = "op" THEN fwlog = <<>>
  ELSE /\ RunsOnce(fwlog, Anc(args, Latest.o) \ pre)
       /\ AfterInputs(fwlog, args)
       /\ \A k \in 1 .. Len(fwlog) : \A a \in 1 .. Len(args[fwlog[k]]) :
            LET x == args[fwlog[k]][a][1]
            IN x \in pre \/ \E j \in 1 .. k - 1 : fwlog[j] = x
\* C07: each ancestor once, after all its consumers
BackOrder == (hist # <<>> /\ Latest.a = "back") =>
  /\ RunsOnce(bwlog, Anc(args, Latest.o))
  /\ AfterConsumers(bwlog, args)
\* C22: work is the number of distinct operations
Work == Len(fwlog) <= Len(args) /\ Len(bwlog) <= Len(args)

\* a sample of the complete histories is printed for replay in the real code
Hash(q) == FoldLeft(LAMBDA h, x : (h * 31 + (CASE x.a = "op" -> 3 + x.n * 5
                                                    + FoldLeft(LAMBDA s, a : (s * 7 + a[1] * 3 + a[2]) % 9973, 1, x.args)
                                               [] x.a = "get" -> 11 + x.o * 3 + x.i
                                               [] OTHER -> 17 + x.o * 5 + x.i)) % 9973, 1, q)
Sample == (Requests = MaxRequests /\ Emit > 0 /\ Hash(hist) % Emit = 0)
            => PrintT("BEHAVIOUR " \o ToJson([leaves |-> Leaves, steps |-> hist]))
=============================================================================
