-------------------------------- MODULE Graph --------------------------------
(* A computation graph: operations in creation order, each with arguments
   <<operation, output>>, plus what a user can ask of it.

   This module is the oracle: which operations a request evaluates, in which order
   they may run, and what the total derivative is.  `GraphAlg` models how graph.rs
   does it and is checked against this module; `TraceGraph` checks recordings of
   the real code against it.                                                     *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

\* args: sequence of argument lists, one per operation
RECURSIVE AncList(_, _)
AncList(args, todo) ==
  IF todo = {} THEN {}
  ELSE LET new == UNION {{args[o][k][1] : k \in 1 .. Len(args[o])} : o \in todo}
       IN todo \cup AncList(args, new)
\* the operation and everything it depends on
Anc(args, o) == AncList(args, {o})

\* `order` runs exactly the operations of `set`, each once
RunsOnce(order, set) == Len(order) = Cardinality(set) /\ {order[k] : k \in 1 .. Len(order)} = set
\* every operation runs after those of its inputs that run at all
AfterInputs(order, args) ==
  \A k \in 1 .. Len(order) : \A j \in k .. Len(order) :
     ~ \E a \in 1 .. Len(args[order[k]]) : args[order[k]][a][1] = order[j]
\* every operation runs after all its consumers
AfterConsumers(order, args) ==
  \A k \in 1 .. Len(order) : \A j \in 1 .. k - 1 :
     ~ \E a \in 1 .. Len(args[order[k]]) : args[order[k]][a][1] = order[j]
=============================================================================
