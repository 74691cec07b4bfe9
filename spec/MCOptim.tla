------------------------------ MODULE MCOptim -------------------------------
(* Every short history of two optimizers and two parameters: configuring, updating, setting
   (valid and invalid).  One history per step from a different state is printed for replay. *)
EXTENDS Optim, Json

CONSTANT MaxLen
Params == {1, 2}
Opts == {1, 2}
Op(a, o, P, w, c) == [a |-> a, o |-> o, ps |-> P, w |-> w, c |-> c]

VARIABLES kinds, has, t, set, hist
vars == <<kinds, has, t, set, hist>>

Init == /\ kinds \in [Opts -> Kinds]
        /\ has = [p \in Params |-> {}]
        /\ t = [o \in Opts |-> 0]
        /\ set = [o \in Opts |-> [w \in {"sc", "l2", "cl"} |-> 0]]
        /\ hist = <<>>
Log(o) == hist' = Append(hist, o)
Conf(o, P) == /\ has' = [p \in Params |-> IF p \in P THEN has[p] \cup StatsOf(kinds[o]) ELSE has[p]]
              /\ Log(Op("configure", o, P, "", "")) /\ UNCHANGED <<kinds, t, set>>
Upd(o, P) == /\ t' = [t EXCEPT ![o] = IF \A p \in P : StatsOf(kinds[o]) \subseteq has[p] THEN @ + 1 ELSE @]
             /\ Log(Op("update", o, P, "", "")) /\ UNCHANGED <<kinds, has, set>>
Set(o, w, c) == /\ set' = IF SettingOk(c) THEN [set EXCEPT ![o][w] = 1] ELSE set
                /\ Log(Op("set", o, {}, w, c)) /\ UNCHANGED <<kinds, has, t>>
Next == /\ Len(hist) < MaxLen
        /\ \E o \in Opts :
             \/ \E P \in SUBSET Params : Conf(o, P) \/ Upd(o, P)
             \/ \E w \in {"sc", "l2", "cl"}, c \in {"q", "neg"} : Set(o, w, c)
Spec == Init /\ [][Next]_vars
View == <<kinds, has, t, set>>

\* configuring again changes nothing; steps are counted one by one and only for the optimizer used
Idempotent == \A o \in Opts, p \in Params :
   LET x == [v |-> <<7>>, g |-> <<0>>, st |-> [s \in has[p] |-> <<5>>]]
   IN Configure([kind |-> kinds[o]], Configure([kind |-> kinds[o]], x)) = Configure([kind |-> kinds[o]], x)
      /\ \A s \in has[p] : Configure([kind |-> kinds[o]], x).st[s] = <<5>>
Counted == [][\A o \in Opts : t'[o] # t[o] => t'[o] = t[o] + 1 /\ hist'[Len(hist')].o = o]_vars
\* no statistic ever disappears, and configuring one parameter gives nothing to another
Kept == [][\A p \in Params : has[p] \subseteq has'[p]
              /\ (has'[p] # has[p] => p \in hist'[Len(hist')].ps)]_vars
EmitStep == PrintT("BEHAVIOUR " \o ToJson([kinds |-> [o \in 1 .. 2 |-> kinds[o]], ops |-> hist']))
ASSUME MomentumZero
ASSUME AdamFirst
ASSUME ClipBound
=============================================================================
