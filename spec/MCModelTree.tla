---------------------------- MODULE MCModelTree -----------------------------
(* All short histories of growing and shrinking the lists of a model, with calls on the whole
   model in between.  Checked: the enumeration lists, in the order of the paths, exactly the
   parameters without a skipped field above them.  One history per step is printed. *)
EXTENDS ModelTree, Json, TLC

CONSTANTS MaxLen, MaxWidth
P == [n |-> "p"]
F(c) == [n |-> "f", c |-> c]
S(c) == [n |-> "s", c |-> c]
L(m) == [n |-> "l", m |-> m, c |-> <<>>]
Leafy  == F(<<P, P>>)
Skippy == F(<<P, S(<<P>>), P, S(<<>>)>>)
ListsM == F(<<P, L(P), L(Leafy), P>>)
Deep   == F(<<ListsM, L(L(Skippy)), L(L(P)), S(<<Leafy>>), F(<<P>>)>>)
Pair   == F(<<ListsM, P, L(ListsM)>>)
Schemas == [Lists |-> ListsM, Deep |-> Deep, Pair |-> Pair, ListOfLeafy |-> L(Leafy), ListOfLists |-> L(L(P))]

VARIABLES z, t, called, hist
Init == /\ z \in DOMAIN Schemas
        /\ t = Schemas[z]
        /\ called = {} /\ hist = <<>>
Step(a, p) == hist' = Append(hist, [a |-> a, path |-> p]) /\ UNCHANGED z
DoGrow == \E p \in Lists(t, <<>>) : Len(At(t, p).c) < MaxWidth /\ t' = Grow(t, p) /\ called' = {} /\ Step("grow", p)
DoShrink == \E p \in Lists(t, <<>>) : At(t, p).c # <<>> /\ t' = Shrink(t, p) /\ called' = {} /\ Step("shrink", p)
Call == \E a \in {"configure", "update", "visit"} \ called : t' = t /\ called' = called \cup {a} /\ Step(a, <<>>)
Next == Len(hist) < MaxLen /\ (DoGrow \/ DoShrink \/ Call)
Spec == Init /\ [][Next]_<<z, t, called, hist>>
View == <<z, t, called>>

LexLess(p, q) == \E i \in 1 .. Len(p) : i <= Len(q) /\ p[i] < q[i] /\ \A j \in 1 .. i - 1 : p[j] = q[j]
Skipped(p) == \E k \in 0 .. Len(p) - 1 : At(t, SubSeq(p, 1, k)).n = "s"
InOrder == LET ps == SetToSortSeq(Paths(t, <<>>), LexLess)
           IN Own(t) = SelectSeq([i \in DOMAIN ps |-> i], LAMBDA i : ~Skipped(ps[i]))
Once == \A i, j \in DOMAIN Own(t) : i < j => Own(t)[i] < Own(t)[j]
\* growing adds exactly one new element and keeps the order of everything else
OwnPaths(u) == {p \in Paths(u, <<>>) : \A k \in 0 .. Len(p) - 1 : At(u, SubSeq(p, 1, k)).n # "s"}
Grows == [][hist'[Len(hist')].a = "grow" => OwnPaths(t) \subseteq OwnPaths(t')]_<<t, hist>>
EmitStep == PrintT("BEHAVIOUR " \o ToJson([z |-> z, ops |-> hist']))
=============================================================================
