------------------------------ MODULE TraceRand ------------------------------
(* Recorded draws, initialisations and dropouts against Rand. *)
EXTENDS Rand, IOUtils, Json

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, next
vars == <<l, next>>

EventOk(e) ==
  CASE e.k = "begin" -> TRUE
    [] e.k = "draw" -> DrawOk(e, next)
    [] e.k = "drop" -> DropOk(e)
    [] e.k = "stat" -> StatOk(e)
    [] e.k = "edge" -> EdgeOk(e)

Init == l = 0 /\ next = 0
Next == /\ l < Len(Trace)
        /\ l' = l + 1
        /\ \E e \in {Trace[l + 1]} :
             next' = (CASE e.k = "begin" -> 0
                        [] e.k \in {"draw", "drop"} -> next + Drawn(e.calls)
                        [] OTHER -> next)
Spec == Init /\ [][Next]_vars
Conforms == l = Len(Trace) \/ EventOk(Trace[l + 1]) \/ (PrintT(<<"REJECT", l + 1>>) /\ TLCSet(1, 1))
Accepted == TLCGet("stats").diameter - 1 = Len(Trace) /\ TLCGet(1) = 0
ASSUME TLCSet(1, 0)
=============================================================================
