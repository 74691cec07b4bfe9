------------------------------- MODULE MCShape -------------------------------
(* Exhaustive histories of one shape object over small and huge sizes; every
   complete history is printed for replay in the real code.                    *)
EXTENDS ShapeObj, TLC, Json

CONSTANTS MaxLen
Sizes == {0, 1, 3, 65536}
Axes  == {0, 1, 2, 7, 8}
Firsts == {<<>>} \cup {<<a>> : a \in Sizes} \cup {<<a, b>> : a \in {1, 2}, b \in Sizes}
          \cup {<<1, 1, 5>>, <<2, 1, 1>>, <<65536, 65536>>, <<65535, 65537>>}

VARIABLES s, hist
vars == <<s, hist>>

Init == \E d \in Firsts, b \in {0, 1, 2} :
          /\ s = Make([k \in 1 .. Len(d) |-> Num(d[k])], Num(b))
          /\ hist = <<[a |-> "new", d |-> d, b |-> b, i |-> 0, m |-> 0]>>
Resize(how) == \E i \in Axes, m \in Sizes :
   /\ LET t == WithAxis(s, i, Num(m)) IN s' = IF t = None THEN s ELSE t
   /\ hist' = Append(hist, [a |-> how, d |-> <<>>, b |-> 0, i |-> i, m |-> m])
Batch == \E m \in Sizes :
   /\ LET t == WithBatch(s, Num(m)) IN s' = IF t = None THEN s ELSE t
   /\ hist' = Append(hist, [a |-> "batch", d |-> <<>>, b |-> 0, i |-> 0, m |-> m])
Next == s # None /\ Len(hist) < MaxLen /\ (Resize("dim") \/ Batch)
Spec == Init /\ [][Next]_vars

\* every reachable shape is one that could have been constructed directly
Direct == s = None \/ s = Make(s.d, s.b)
Bounded == s = None \/ (Elements(s) # <<>> /\ Len(s.d) <= MaxAxes /\ \A k \in 1 .. Len(s.d) : s.d[k] # Zero)
\* setting an axis and setting it back changes nothing
Undo == s = None \/ \A i \in {0, 1, 2, 7}, m \in {1, 3} :
           LET t == WithAxis(s, i, Num(m)) IN t = None \/ WithAxis(t, i, Ax(s, i)) = s
\* resizes of different axes commute
Commute == s = None \/ \A m, n \in {1, 3} :
           LET t == WithAxis(s, 0, Num(m))
               u == WithAxis(s, 7, Num(n))
           IN t = None \/ u = None \/ WithAxis(t, 7, Num(n)) = WithAxis(u, 0, Num(m))
Equal == Pair(s, s).eq = 1
Emit == (Len(hist) < MaxLen /\ s # None) \/ PrintT("BEHAVIOUR " \o ToJson(hist))
=============================================================================
