------------------------------ MODULE TraceExt ------------------------------
(* Recorded calls at extreme arguments against Extremes. *)
EXTENDS Extremes, TLC, IOUtils, Json

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l
vars == <<l>>

EventOk(e) == CASE e.k = "fun" -> FunOk(e) [] e.k = "line" -> LineOk(e) [] e.k = "shift" -> ShiftOk(e)

Init == l = 0
Next == /\ l < Len(Trace)
        /\ l' = l + 1
Spec == Init /\ [][Next]_vars
Conforms == l = Len(Trace) \/ EventOk(Trace[l + 1]) \/ (PrintT(<<"REJECT", l + 1>>) /\ TLCSet(1, 1))
Accepted == TLCGet("stats").diameter - 1 = Len(Trace) /\ TLCGet(1) = 0
ASSUME TLCSet(1, 0)
=============================================================================
