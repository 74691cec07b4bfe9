---------------------------- MODULE TraceResume -----------------------------
(* Recorded sessions of saving, loading and training on real models.  `what` numbers what has been
   done to a copy (see Resume: its history), `table` gives the content seen for each number
   and `edge` the number reached by an action; so two copies with the same history must
   show the same content, bit by bit.                                                      *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, IOUtils, Json, TLC

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, what, files, table, edge, h
vars == <<l, what, files, table, edge, h>>

Known(e) == e.k = "act" /\ <<what[e.c], e.a>> \in DOMAIN edge
\* the number the copy has after the event
Number(e) ==
  CASE e.k = "base" -> Len(table) + 1
    [] e.k = "act" -> IF Known(e) THEN edge[<<what[e.c], e.a>>] ELSE Len(table) + 1
    [] e.k = "save" -> what[e.c]
    [] e.k = "load" -> files[e.f]
New(e) == e.k = "base" \/ (e.k = "act" /\ ~Known(e))
Others(e) == \A c \in DOMAIN h : (e.k # "begin" /\ c # e.c) => e.h[c] = h[c]

EventOk(e) ==
  \/ e.k = "begin"
  \/ /\ Others(e)
     /\ \A i \in DOMAIN e.d : e.d[i] = e.on
     /\ CASE e.k = "base" -> e.c = Len(what) + 1
          [] e.k = "load" -> e.c = Len(what) + 1 /\ e.on = e.to
          [] OTHER -> TRUE
     /\ New(e) \/ table[Number(e)] = [content |-> e.content, ok |-> IF e.k = "act" THEN e.ok ELSE table[Number(e)].ok]

Init == l = 0 /\ what = <<>> /\ files = <<>> /\ table = <<>> /\ edge = <<>> /\ h = <<>>
Next == /\ l < Len(Trace)
        /\ l' = l + 1
        /\ \E e \in {Trace[l + 1]} :
             IF e.k = "begin" THEN what' = <<>> /\ files' = <<>> /\ table' = <<>> /\ edge' = <<>> /\ h' = <<>>
             ELSE /\ what' = IF e.k \in {"base", "load"} THEN Append(what, Number(e)) ELSE [what EXCEPT ![e.c] = Number(e)]
                  /\ files' = IF e.k = "save" THEN Append(files, what[e.c]) ELSE files
                  /\ table' = IF New(e) THEN Append(table, [content |-> e.content, ok |-> IF e.k = "act" THEN e.ok ELSE 1]) ELSE table
                  /\ edge' = IF e.k = "act" THEN (<<what[e.c], e.a>> :> Number(e)) @@ edge ELSE edge
                  /\ h' = e.h
Spec == Init /\ [][Next]_vars
Conforms == l = Len(Trace) \/ EventOk(Trace[l + 1]) \/ (PrintT(<<"REJECT", l + 1>>) /\ TLCSet(1, 1))
Accepted == TLCGet("stats").diameter - 1 = Len(Trace) /\ TLCGet(1) = 0
ASSUME TLCSet(1, 0)
=============================================================================
