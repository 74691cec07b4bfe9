---------------------------- MODULE TraceFaults -----------------------------
(* Recorded histories with faults, beside a twin without, against Faults. *)
EXTENDS Faults, IOUtils, Json

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, seen, nv
vars == <<l, seen, nv>>
Nothing == [ts |-> <<>>, ps |-> <<>>, e |-> 0]

EventOk(e) ==
  CASE e.k = "begin" -> TRUE
    [] e.k = "end" -> EndOk(e)
    [] OTHER -> CallOk(seen, nv, e)

Init == l = 0 /\ seen = Nothing /\ nv = <<>>
Next == /\ l < Len(Trace)
        /\ l' = l + 1
        /\ \E e \in {Trace[l + 1]} :
             /\ seen' = (IF e.k = "call" THEN e.obs ELSE Nothing)
             /\ nv' = (IF e.k = "call" /\ e.kind = "graph" THEN e.nv ELSE <<>>)
Spec == Init /\ [][Next]_vars
Conforms == l = Len(Trace) \/ EventOk(Trace[l + 1]) \/ (PrintT(<<"REJECT", l + 1>>) /\ TLCSet(1, 1))
Accepted == TLCGet("stats").diameter - 1 = Len(Trace) /\ TLCGet(1) = 0
ASSUME TLCSet(1, 0)
=============================================================================
