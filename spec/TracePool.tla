----------------------------- MODULE TracePool ------------------------------
(* What a memory pool may do, as seen by its users and by the backend, whatever its locks
   and data structures: a trace of request begins and ends, release begins and ends, and
   the backend calls in between, by any number of threads.  A line "dev" starts a new pool.
   ASPECT own:      every block handed out has one holder and is large enough, and every
                    request and release succeeds                                  (C09)
   ASPECT recycle:  new memory only when no released block of the class is left, and every
                    block goes back to the backend once, at the end               (C10)
   ASPECT fail:     the above, with a backend that refuses requests                (C17) *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, IOUtils, Json

Trace  == ndJsonDeserialize(IOEnv.TRACE)
Aspect == IOEnv.ASPECT
Own     == Aspect \in {"own", "fail"}
Recycle == Aspect \in {"recycle", "fail"}

VARIABLES l,
          block,   \* block -> [cap, class, by (holder, 0: nobody), rel (being released by), at, back]
          pend,    \* thread -> request in progress [size, at, got, refused]
          dying    \* the pool is being destroyed
vars == <<l, block, pend, dying>>

\* sizes are pairs <<high, low>> of 16-bit halves
Less(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
RECURSIVE Bits(_)
Bits(n) == IF n <= 1 THEN 0 ELSE 1 + Bits((n + 1) \div 2)      \* smallest k with 2^k >= n
Class(s) == LET k == IF s[1] = 0 THEN Bits(s[2])
                     ELSE IF s[2] = 0 THEN 16 + Bits(s[1]) ELSE 16 + Bits(s[1] + 1)
            IN IF k < 6 THEN 6 ELSE k
Impossible(s) == s = <<0, 0>> \/ Class(s) > 31

Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Del(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]

\* blocks that were free (released completely) before the request of thread t began
FreeSince(t, c) == {b \in DOMAIN block : block[b].class = c /\ block[b].by = 0 /\ block[b].rel = 0
                                          /\ block[b].at < pend[t].at}
Others(t, c) == {u \in DOMAIN pend : u # t /\ Class(pend[u].size) = c}

Allowed(e) ==
  CASE e.k = "dev" -> TRUE
    [] e.k = "ab" -> TRUE
    [] e.k = "bn" ->
         /\ Own => ~ Less(e.cap, pend[e.t].size)
         /\ Recycle => /\ ~ dying
                       /\ ~ pend[e.t].got
                       /\ LET c == Class(pend[e.t].size)
                          IN Cardinality(FreeSince(e.t, c)) <= Cardinality(Others(e.t, c))
    [] e.k = "bf" -> TRUE
    [] e.k = "ae" ->
         /\ e.b \in DOMAIN block
         /\ block[e.b].by = 0
         /\ ~ block[e.b].back
         /\ Own => ~ Less(block[e.b].cap, pend[e.t].size) /\ ~ pend[e.t].refused
    [] e.k = "ax" -> Own => (Impossible(pend[e.t].size) \/ pend[e.t].refused)
    [] e.k = "fb" -> TRUE
    [] e.k = "fe" -> TRUE
    [] e.k = "fx" -> ~ Own
    [] e.k = "hang" -> ~ Own
    [] e.k = "db" -> TRUE
    [] e.k = "bd" -> Recycle => /\ dying
                                /\ e.b \in DOMAIN block
                                /\ block[e.b].by = 0
                                /\ ~ block[e.b].back
    [] e.k = "de" -> Recycle => /\ e.ok = 1
                                /\ \A b \in DOMAIN block : block[b].by = 0 => block[b].back

Block(e) ==
  CASE e.k = "dev" -> <<>>
    [] e.k = "bn" -> Put(block, e.b, [cap |-> e.cap, class |-> Class(pend[e.t].size), by |-> 0, rel |-> e.t,
                                      at |-> 0, back |-> FALSE])
    [] e.k = "ae" -> IF e.b \in DOMAIN block THEN [block EXCEPT ![e.b].by = e.t, ![e.b].rel = 0] ELSE block
    [] e.k = "fb" -> IF e.b \in DOMAIN block THEN [block EXCEPT ![e.b].by = 0, ![e.b].rel = e.t] ELSE block
    [] e.k = "fe" -> IF e.b \in DOMAIN block /\ block[e.b].rel = e.t THEN [block EXCEPT ![e.b].rel = 0, ![e.b].at = l + 1]
                     ELSE block
    [] e.k = "bd" -> IF e.b \in DOMAIN block THEN [block EXCEPT ![e.b].back = TRUE] ELSE block
    [] OTHER -> block
Pend(e) ==
  CASE e.k = "dev" -> <<>>
    [] e.k = "ab" -> Put(pend, e.t, [size |-> e.size, at |-> l + 1, got |-> FALSE, refused |-> FALSE])
    [] e.k \in {"ae", "ax"} -> Del(pend, e.t)
    [] e.k = "bn" -> [pend EXCEPT ![e.t].got = TRUE]
    [] e.k = "bf" -> [pend EXCEPT ![e.t].refused = TRUE]
    [] OTHER -> pend

Init == l = 0 /\ block = <<>> /\ pend = <<>> /\ dying = FALSE
Next == /\ l < Len(Trace)
        /\ l' = l + 1
        /\ \E e \in {Trace[l + 1]} :
             /\ block' = Block(e)
             /\ pend' = Pend(e)
             /\ dying' = (e.k # "dev" /\ (dying \/ e.k = "db"))
Spec == Init /\ [][Next]_vars
Conforms == l = Len(Trace) \/ Allowed(Trace[l + 1]) \/ (PrintT(<<"REJECT", l + 1>>) /\ TLCSet(1, 1))
Accepted == TLCGet("stats").diameter - 1 = Len(Trace) /\ TLCGet(1) = 0
ASSUME TLCSet(1, 0)
=============================================================================
