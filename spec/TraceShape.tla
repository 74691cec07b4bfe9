----------------------------- MODULE TraceShape -----------------------------
(* Trace of requests on shape slots.  Each event names the slot it reads (s) and the
   slot it writes (t), whether it was accepted, everything observable of the slots
   afterwards, and the predicates between the written slot and all others.       *)
EXTENDS ShapeObj, TLC, IOUtils, Json

Trace == ndJsonDeserialize(IOEnv.TRACE)
Slots == 1 .. 5
VARIABLES l, st
vars == <<l, st>>

\* the value the request would produce
Wanted(f, e) ==
  CASE e.k = "new"    -> Make(e.d, e.b)
    [] e.k = "dim"    -> WithAxis(f[e.s], e.i, e.m)
    [] e.k = "batch"  -> WithBatch(f[e.s], e.m)
    [] e.k = "copy"   -> f[e.s]
Init == l = 0 /\ st = [k \in Slots |-> Make(<<>>, One)]
Next == /\ l < Len(Trace)
        /\ l' = l + 1
        /\ LET e == Trace[l + 1] IN
           \E w \in {Wanted(st, e)} : st' = IF w = None THEN st ELSE [st EXCEPT ![e.t] = w]
Spec == Init /\ [][Next]_vars

EventOk(e) ==
  LET w == st[e.t] IN
  /\ e.ok = 1 => e.o = Observed(w)
  /\ e.ok = 0 => e.o = Observed(w)          \* rejected: the slot keeps its value
  /\ \A k \in Slots : e.p[k] = Pair(w, st[k])
\* acceptance needs the value before: it is checked when the step is taken
Accepts == l < Len(Trace) =>
   LET e == Trace[l + 1] IN
   \/ e.ok = Bit(Wanted(st, e) # None)
   \/ PrintT(<<"REJECT", l + 1, "acceptance">>) /\ TLCSet(1, 1)
Conforms == (l = 0 \/ EventOk(Trace[l]) \/ (PrintT(<<"REJECT", l, "attributes">>) /\ TLCSet(1, 1))) /\ Accepts
Accepted == TLCGet("stats").diameter - 1 = Len(Trace) /\ TLCGet(1) = 0
ASSUME TLCSet(1, 0)
=============================================================================
