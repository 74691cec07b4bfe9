----------------------------- MODULE ModelTree ------------------------------
(* The structure of a model and which of its parameters it enumerates.

   A tree node is one of
     [n |-> "p"]                          a parameter
     [n |-> "f", c |-> <<...>>]           a struct: its fields in declaration order
     [n |-> "s", c |-> <<...>>]           a field that is marked as skipped (and what is in it)
     [n |-> "l", m |-> tree, c |-> <<..>>]  a list of models, a new element looks like m   *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets

\* every parameter in declaration order: TRUE if it belongs to the model
RECURSIVE Leaves(_, _)
Leaves(t, own) ==
  IF t.n = "p" THEN <<own>>
  ELSE FoldLeft(LAMBDA a, x : a \o Leaves(x, own /\ t.n # "s"), <<>>, t.c)
\* the enumeration: positions (among all parameters) of those that belong to the model
Own(t) == LET b == Leaves(t, TRUE) IN SelectSeq([i \in DOMAIN b |-> i], LAMBDA i : b[i])

RECURSIVE At(_, _)
At(t, path) == IF path = <<>> THEN t ELSE At(t.c[Head(path)], Tail(path))
RECURSIVE Put(_, _, _)
Put(t, path, x) == IF path = <<>> THEN x
                   ELSE [t EXCEPT !.c = [@ EXCEPT ![Head(path)] = Put(@, Tail(path), x)]]
Grow(t, path) == LET l == At(t, path) IN Put(t, path, [l EXCEPT !.c = Append(@, l.m)])
Shrink(t, path) == LET l == At(t, path) IN Put(t, path, [l EXCEPT !.c = Front(@)])

RECURSIVE Paths(_, _)
Paths(t, p) == IF t.n = "p" THEN {p}
               ELSE UNION {Paths(t.c[i], Append(p, i)) : i \in DOMAIN t.c}
RECURSIVE Lists(_, _)
Lists(t, p) == IF t.n = "p" THEN {}
               ELSE (IF t.n = "l" THEN {p} ELSE {}) \cup UNION {Lists(t.c[i], Append(p, i)) : i \in DOMAIN t.c}
=============================================================================
