----------------------------- MODULE MemoryPool -----------------------------
(* The device memory pool at the granularity of its lock sections.

   A request takes a block from the free list of its class (pool lock), or a new one from
   the backend, and then records its class (map lock).  A release forgets the class (map
   lock) and then puts the block into the free list (pool lock).  Threads run programs of
   requests and releases; every interleaving of the lock sections is explored, and the
   order of the threads is the schedule replayed in the real pool.                     *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Json

CONSTANTS Threads, MaxLen, Stock, Emit, PushFirst
ASSUME Stock \subseteq 0 .. 2
VARIABLES prog,      \* what every thread has left to do
          pc, tmp,   \* the operation in progress, the block in its hands (0: none)
          held,      \* blocks handed out, per thread
          free,      \* free list per class
          class,     \* the map: block -> class
          made,      \* blocks obtained from the backend
          failed,    \* an operation hit an unknown block
          start, hist
vars == <<prog, pc, tmp, held, free, class, made, failed, start, hist>>

Classes == {6, 7}
Op == {"a6", "a7", "f"}
ClassOf(o) == IF o = "a6" THEN 6 ELSE 7
\* programs that never release more than they hold (one block to begin with)
RECURSIVE Fits(_, _)
Fits(p, n) == p = <<>> \/ (IF Head(p) = "f" THEN n > 0 /\ Fits(Tail(p), n - 1) ELSE Fits(Tail(p), n + 1))
Programs == {p \in UNION {[1 .. n -> Op] : n \in 1 .. MaxLen} : Fits(p, 1)}

Init == \E ps \in [Threads -> Programs], s \in Stock :
          /\ prog = ps
          /\ pc = [t \in Threads |-> "idle"]
          /\ tmp = [t \in Threads |-> 0]
          /\ held = [t \in Threads |-> <<t>>]                      \* one block of class 6 each
          /\ made = Cardinality(Threads) + s
          /\ free = [c \in Classes |-> IF c = 6 THEN {Cardinality(Threads) + k : k \in 1 .. s} ELSE {}]
          /\ class = [b \in Threads |-> 6]
          /\ failed = FALSE
          /\ start = [progs |-> [t \in Threads |-> ps[t]], stock |-> s]
          /\ hist = <<>>

Put(f, b, c) == [x \in (DOMAIN f) \cup {b} |-> IF x = b THEN c ELSE f[x]]
Without(f, b) == [x \in (DOMAIN f) \ {b} |-> f[x]]
Busy(t) == pc[t] # "idle"
Ran(t) == hist' = Append(hist, t)

\* request, first section: pop
Pop(t) == /\ ~ Busy(t) /\ prog[t] # <<>> /\ Head(prog[t]) # "f"
          /\ LET c == ClassOf(Head(prog[t])) IN
             IF free[c] = {} THEN tmp' = [tmp EXCEPT ![t] = 0] /\ free' = free
             ELSE \E b \in free[c] : /\ tmp' = [tmp EXCEPT ![t] = b]
                                     /\ free' = [free EXCEPT ![c] = @ \ {b}]
          /\ pc' = [pc EXCEPT ![t] = "record"]
          /\ Ran(t)
          /\ UNCHANGED <<prog, held, class, made, failed, start>>
\* second section: a new block if there was none; record its class
Record(t) == /\ pc[t] = "record"
             /\ LET c == ClassOf(Head(prog[t]))
                    b == IF tmp[t] = 0 THEN made + 1 ELSE tmp[t]
                IN /\ made' = IF tmp[t] = 0 THEN made + 1 ELSE made
                   /\ class' = Put(class, b, c)
                   /\ held' = [held EXCEPT ![t] = Append(@, b)]
             /\ tmp' = [tmp EXCEPT ![t] = 0]
             /\ prog' = [prog EXCEPT ![t] = Tail(@)]
             /\ pc' = [pc EXCEPT ![t] = "idle"]
             /\ Ran(t)
             /\ UNCHANGED <<free, failed, start>>
\* release, first section: forget the class (with PushFirst: put it into the free list)
Forget(t) == /\ ~ Busy(t) /\ prog[t] # <<>> /\ Head(prog[t]) = "f"
             /\ LET b == Head(held[t]) IN
                /\ tmp' = [tmp EXCEPT ![t] = b]
                /\ held' = [held EXCEPT ![t] = Tail(@)]
                /\ IF b \notin DOMAIN class
                   THEN failed' = TRUE /\ UNCHANGED <<class, free, pc>>
                   ELSE /\ failed' = failed
                        /\ pc' = [pc EXCEPT ![t] = IF class[b] = 6 THEN "push6" ELSE "push7"]
                        /\ IF PushFirst THEN free' = [free EXCEPT ![class[b]] = @ \cup {b}] /\ class' = class
                           ELSE class' = Without(class, b) /\ free' = free
             /\ Ran(t)
             /\ UNCHANGED <<prog, made, start>>
Push(t) == /\ pc[t] \in {"push6", "push7"}
           /\ LET c == IF pc[t] = "push6" THEN 6 ELSE 7 IN
              IF PushFirst THEN class' = Without(class, tmp[t]) /\ free' = free
              ELSE free' = [free EXCEPT ![c] = @ \cup {tmp[t]}] /\ class' = class
           /\ tmp' = [tmp EXCEPT ![t] = 0]
           /\ prog' = [prog EXCEPT ![t] = Tail(@)]
           /\ pc' = [pc EXCEPT ![t] = "idle"]
           /\ Ran(t)
           /\ UNCHANGED <<held, made, failed, start>>
Next == \E t \in Threads : Pop(t) \/ Record(t) \/ Forget(t) \/ Push(t)
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
Finished == \A t \in Threads : prog[t] = <<>>
InHands(t) == {held[t][k] : k \in 1 .. Len(held[t])} \cup (IF tmp[t] = 0 THEN {} ELSE {tmp[t]})
AllFree == UNION {free[c] : c \in Classes}
\* C09: every block has one place
Exclusive == /\ \A t \in Threads : \A u \in Threads : t # u => InHands(t) \cap InHands(u) = {}
             /\ \A t \in Threads : InHands(t) \cap AllFree = {}
             /\ \A t \in Threads : Len(held[t]) = Cardinality({held[t][k] : k \in 1 .. Len(held[t])})
             /\ free[6] \cap free[7] = {}
NoFailure == ~ failed
\* C10: nothing is lost, so the destructor, which returns the free lists, returns everything once
Conserved == 1 .. made = AllFree \cup UNION {InHands(t) : t \in Threads}
Recorded == Finished => DOMAIN class = UNION {InHands(t) : t \in Threads}
\* C10: a new block is made only by a request that ran when every block of its class was in
\* somebody's hands
Recycled == [][\A t \in Threads : (Pop(t) /\ tmp'[t] = 0) => free[ClassOf(Head(prog[t]))] = {}]_vars
\* nobody waits forever: some thread can always go on until all are done
Progress == Finished \/ ENABLED Next

Hash(q) == FoldLeft(LAMBDA h, x : (h * 31 + x) % 9973, 7, q)
PHash == FoldLeft(LAMBDA h, t : FoldLeft(LAMBDA g, o : (g * 7 + (CASE o = "a6" -> 1 [] o = "a7" -> 2 [] OTHER -> 3)) % 9973, h, start.progs[t]),
                  start.stock + 11, SetToSeq(Threads))
\* all but the history: for configurations that only check
View == <<prog, pc, tmp, held, free, class, made, failed>>
Sample == (Finished /\ Emit > 0 /\ (Hash(hist) + PHash) % Emit = 0)
            => PrintT("BEHAVIOUR " \o ToJson([progs |-> [k \in 1 .. Cardinality(Threads) |-> start.progs[k]],
                                             stock |-> start.stock, sched |-> hist]))
=============================================================================
