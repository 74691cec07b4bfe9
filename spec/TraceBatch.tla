------------------------------ MODULE TraceBatch -----------------------------
(* Recorded calls and programs on minibatches and on their samples against Batch. *)
EXTENDS Batch, TLC, IOUtils, Json

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, samples
vars == <<l, samples>>

EventOk(e) == IF e.k = "join" THEN JoinOk(e) ELSE YbOk(e) /\ OneOk(e)

Init == l = 0 /\ samples = 0
Next == /\ l < Len(Trace)
        /\ l' = l + 1
        /\ samples' = (IF Trace[l + 1].k = "join" THEN samples ELSE samples + Len(Trace[l + 1].sm))
Spec == Init /\ [][Next]_vars
Conforms == l = Len(Trace) \/ EventOk(Trace[l + 1]) \/ (PrintT(<<"REJECT", l + 1>>) /\ TLCSet(1, 1))
Accepted == TLCGet("stats").diameter - 1 = Len(Trace) /\ TLCGet(1) = 0
ASSUME TLCSet(1, 0)
=============================================================================
