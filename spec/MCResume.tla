------------------------------ MODULE MCResume ------------------------------
(* All short histories of training, saving and loading.  Lost \in {"", "g", "m", "t"}: what a
   save would forget; with anything but "" the invariant fails (it is not vacuous).       *)
EXTENDS Resume, Json

CONSTANTS MaxLen, MaxCopies, MaxFiles, Lost
VARIABLES cs, fs, hist
vars == <<cs, fs, hist>>
Step(a, c) == hist' = Append(hist, [a |-> a, c |-> c])
Kept(x) == CASE Lost = "g" -> [x EXCEPT !.g = 0]
             [] Lost = "m" -> [x EXCEPT !.m = IF @ < 0 THEN @ ELSE 0]
             [] Lost = "t" -> [x EXCEPT !.t = 0]
             [] OTHER -> x
Init == cs = <<[did |-> <<>>, x |-> Fresh]>> /\ fs = <<>> /\ hist = <<>>
Act == \E c \in DOMAIN cs, a \in Acts :
         /\ cs' = [cs EXCEPT ![c] = [did |-> Append(@.did, a), x |-> Do(@.x, a)]]
         /\ fs' = fs /\ Step(a, c)
Save == \E c \in DOMAIN cs : /\ Len(fs) < MaxFiles
                             /\ fs' = Append(fs, [cs[c] EXCEPT !.x = Kept(@)])
                             /\ cs' = cs /\ Step("save", c)
Load == \E f \in DOMAIN fs : /\ Len(cs) < MaxCopies
                             /\ cs' = Append(cs, fs[f])
                             /\ fs' = fs /\ Step("load", f)
Next == Len(hist) < MaxLen /\ (Act \/ Save \/ Load)
Spec == Init /\ [][Next]_vars
View == <<cs, fs>>
Exact == \A c, d \in DOMAIN cs : cs[c].did = cs[d].did => cs[c].x = cs[d].x
Apart == [][\A c \in DOMAIN cs : cs'[c] # cs[c] => hist'[Len(hist')].a \in Acts /\ hist'[Len(hist')].c = c]_vars
\* only histories in which something was loaded are worth replaying
EmitStep == (Len(hist') = MaxLen /\ Len(cs') > 1) => PrintT("BEHAVIOUR " \o ToJson([ops |-> hist']))
=============================================================================
