------------------------------- MODULE MCLife -------------------------------
(* Every history of a few tensors on two devices, as far as states differ: from each state
   every operation the language allows, valid or not.  Each such history is printed once
   for replay in the real code.                                                          *)
EXTENDS TensorLife, Json

CONSTANTS Slots, MaxLen, Emitting

\* [2], [1,2] (same size), [3], and two samples of one element
ShapeSet == {Sh(<<2>>, 1), Sh(<<1, 2>>, 1), Sh(<<3>>, 1), Sh(<<>>, 2)}
Devs == {1, 2}
Op(a, s, d, sh, t, v) == [a |-> a, s |-> s, d |-> d, sh |-> sh, t |-> t, vals |-> v]
Ramp(n, k) == [i \in 1 .. n |-> 10 * k + i]
Ops(k) ==
  {Op("new", s, d, sh, 0, <<>>) : s \in Slots, d \in Devs, sh \in ShapeSet}
  \cup {Op("host", s, 0, sh, 0, Ramp(2, k)) : s \in Slots, sh \in {Sh(<<2>>, 1), Sh(<<3>>, 1)}}
  \cup {Op("slice", s, 1, sh, 0, Ramp(2, k)) : s \in Slots, sh \in {Sh(<<2>>, 1), Sh(<<3>>, 1)}}
  \cup {Op(a, s, 0, NoShape, t, <<>>) : a \in {"copy", "from", "refer", "replace", "resettensor", "neg"},
                                        s \in Slots, t \in Slots}
  \cup {Op(a, s, 0, NoShape, 0, <<>>) : a \in {"alloc", "drop"}, s \in Slots}
  \cup {Op("move", s, d, NoShape, 0, <<>>) : s \in Slots, d \in Devs}
  \cup {Op("update", s, 0, sh, 0, <<>>) : s \in Slots, sh \in ShapeSet}
  \cup {Op("reset", s, 0, NoShape, 0, <<k>>) : s \in Slots}
  \cup {Op("resetslice", s, 0, NoShape, 0, Ramp(n, k)) : s \in Slots, n \in 1 .. 3}

VARIABLES S, held, hist
vars == <<S, held, hist>>

Init == S = [s \in Slots |-> Gone] /\ held = {} /\ hist = <<>>
Fresh(d) == CHOOSE b \in 1 .. 10 : <<d, b>> \notin held /\ \A c \in 1 .. b - 1 : <<d, c>> \in held
Next == /\ Len(hist) < MaxLen
        /\ \E o \in Ops(Len(hist) + 1) :
             /\ Can(o, S)
             /\ LET d == Needs(o, S)
                    b == IF d = 0 THEN 0 ELSE Fresh(d)
                    T == After(o, S, b)
                    got == IF d = 0 THEN {} ELSE {<<d, b>>}
                    \* what an owner leaves behind when it goes away
                    left == {<<S[i].dev, S[i].blk>> : i \in {i \in Owners(S) : T[i].st # "owned"}}
                    kept == {<<T[i].dev, T[i].blk>> : i \in Owners(T)}
                IN /\ S' = T
                   /\ held' = ((held \cup got) \ left) \cup (left \cap kept)
             /\ hist' = Append(hist, o)
Spec == Init /\ [][Next]_vars

Abstract(x) == [x EXCEPT !.vals = Len(x.vals), !.blk = 0]
View == <<[s \in Slots |-> Abstract(S[s])]>>

Once == OwnedOnce(S)
Sees == Shows(S)
\* the memory held is exactly what owners own, and nothing is held twice
Accounted == held = {<<S[i].dev, S[i].blk>> : i \in Owners(S)}
\* a rejected request has no effect (except that a replacement is consumed)
NoEffect == [][\A o \in {hist'[Len(hist')]} : Ok(o, S) \/ o.a = "replace" \/ S' = S]_vars
EmitStep == ~ Emitting \/ PrintT("BEHAVIOUR " \o ToJson(hist'))
=============================================================================
