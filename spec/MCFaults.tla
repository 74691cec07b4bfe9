------------------------------ MODULE MCFaults ------------------------------
(* All short histories of calls, each a program of steps (obtaining a block, running a kernel,
   keeping a result), with a fault at any step.  Unwind = "release" gives back what the call
   had obtained, "leak" does not; Epoch = "last" advances the epoch after all parameters,
   "first" before; Commit = "late" makes a result visible when it is complete, "early" as soon as it
   has memory.                                                                                *)
EXTENDS Faults, Json

CONSTANTS MaxLen, MaxTensors, Unwind, Commit, Check
P == 1 .. 2

VARIABLES s,      \* [ts, ps, e, free, n, tmp]
          twin, last, hist
vars == <<s, twin, last, hist>>

\* ---- steps ----
Start == [ts |-> <<>>, ps |-> [p \in P |-> [v |-> p, g |-> 0, st |-> 0, bs |-> {2 * p - 1, 2 * p}]], e |-> 0,
          free |-> {}, n |-> 4, tmp |-> {}]
Least(S) == CHOOSE x \in S : \A y \in S : x <= y
Obtain(x) == IF x.free # {} THEN LET b == Least(x.free) IN [x EXCEPT !.free = @ \ {b}, !.tmp = @ \cup {b}]
             ELSE [x EXCEPT !.n = @ + 1, !.tmp = @ \cup {x.n + 1}]
Release(x) == [x EXCEPT !.free = @ \cup x.tmp, !.tmp = {}]
Do(x, t) ==
  CASE t.o = "alloc" -> Obtain(x)
    [] t.o = "keep" -> [x EXCEPT !.ts = Append(@, [b |-> Least(x.tmp), v |-> t.v]), !.tmp = @ \ {Least(x.tmp)}]
    [] t.o = "write" -> [x EXCEPT !.ts[Len(x.ts)].v = t.v]
    [] t.o = "keepst" -> [x EXCEPT !.ps[t.p].st = 1, !.ps[t.p].bs = @ \cup x.tmp, !.tmp = {}]
    [] t.o = "st" -> [x EXCEPT !.ps[t.p].st = @ + x.ps[t.p].g + 1]
    [] t.o = "v" -> [x EXCEPT !.ps[t.p].v = @ + x.ps[t.p].st]
    [] t.o = "g" -> [x EXCEPT !.ps[t.p].g = @ + 1]
    [] t.o = "tv" -> [x EXCEPT !.ts[t.i].v = @ + 1]
    [] t.o = "e" -> [x EXCEPT !.e = @ + 1]
    [] OTHER -> x
S(o) == [o |-> o]
Kernel(t) == t.o \in {"kern", "write", "st", "v", "g", "tv"}
Make == IF Commit = "early" THEN <<S("alloc"), [o |-> "keep", v |-> 0], [o |-> "write", v |-> 7]>>
        ELSE <<S("alloc"), S("kern"), [o |-> "keep", v |-> 7]>>
Configure(x) == LET one(p) == IF x.ps[p].st = 0 THEN <<S("alloc"), S("kern"), [o |-> "keepst", p |-> p]>> ELSE <<>>
                IN one(1) \o one(2)
Update == <<[o |-> "st", p |-> 1], [o |-> "v", p |-> 1], [o |-> "st", p |-> 2], [o |-> "v", p |-> 2], S("e")>>
Eval == <<S("alloc"), S("kern"), S("alloc"), S("kern")>>
Train == Eval \o <<S("alloc"), S("kern"), [o |-> "g", p |-> 1], [o |-> "g", p |-> 2]>>

RECURSIVE Run(_, _, _, _)
Run(x, q, f, k) ==
  IF q = <<>> THEN [x |-> Release(x), cut |-> FALSE]
  ELSE LET t == q[1]
           hit == (f = "alloc" /\ t.o = "alloc") \/ (f = "kernel" /\ Kernel(t))
       IN IF hit /\ k = 0
          THEN [x |-> IF Unwind = "leak" THEN [x EXCEPT !.tmp = {}] ELSE Release(x), cut |-> TRUE]
          ELSE Run(Do(x, t), Tail(q), f, IF hit THEN k - 1 ELSE k)

\* ---- what is observed ----
Seen(x) == [ts |-> [i \in DOMAIN x.ts |-> IF x.ts[i].b = 0 THEN -1 ELSE x.ts[i].v],
            ps |-> [p \in P |-> <<x.ps[p].v, x.ps[p].g, x.ps[p].st, 0>>], e |-> x.e]
RECURSIVE AsSeq(_)
AsSeq(B) == IF B = {} THEN <<>> ELSE <<Least(B)>> \o AsSeq(B \ {Least(B)})
Held(x) == [i \in DOMAIN SelectSeq(x.ts, LAMBDA t : t.b # 0) |-> SelectSeq(x.ts, LAMBDA t : t.b # 0)[i].b]
           \o AsSeq(x.ps[1].bs) \o AsSeq(x.ps[2].bs)

\* the twin takes the steps of the real world over after a call of several steps was cut
Follow(kind, cut, x, full) ==
  IF ~cut THEN full
  ELSE CASE kind = "batch" -> x
         [] kind = "graph" -> [full EXCEPT !.ps = [p \in P |-> [full.ps[p] EXCEPT !.g = x.ps[p].g]]]
         [] OTHER -> twin

\* rejected: the call is not even started
Call(kind, q, f, k, rejected) ==
  LET none == [x |-> s, cut |-> FALSE]
      a == IF rejected THEN none ELSE Run(s, q, f, k)
      b == IF rejected THEN [x |-> twin, cut |-> FALSE] ELSE Run(twin, q, "none", 0)
      t == Follow(kind, a.cut, a.x, b.x)
      no == rejected \/ a.cut
  IN /\ s' = a.x /\ twin' = t
     /\ last' = [kind |-> kind, fired |-> IF a.cut THEN 1 ELSE 0, ok |-> IF no THEN 0 ELSE 1,
                 tok |-> IF rejected THEN 0 ELSE 1, res |-> 0, tres |-> 0, loose |-> 0, bad |-> 0,
                 nv |-> <<>>, tnv |-> <<>>, short |-> Cardinality({p \in P : a.x.ps[p].st = 0}), obs |-> Seen(a.x), twin |-> Seen(t), full |-> Seen(b.x), blocks |-> Held(a.x)]
Step(a, f, k) == hist' = Append(hist, [a |-> a, f |-> f, n |-> k])
First == {i \in DOMAIN s.ts : s.ts[i].b # 0 /\ \A j \in 1 .. i - 1 : s.ts[j].b = 0}
Faulty(na, nk) == {<<"none", 0>>} \cup {<<"alloc", k>> : k \in 0 .. na - 1} \cup {<<"kernel", k>> : k \in 0 .. nk - 1}

MakeA == /\ Len(s.ts) < MaxTensors
         /\ \E f \in Faulty(1, 1) \cup {<<"bad", 0>>} :
              Call("single", Make, f[1], f[2], f[1] = "bad") /\ Step("make", f[1], f[2])
InplaceA == \E i \in First : \E f \in Faulty(0, 1) \cup {<<"bad", 0>>} :
              Call("single", <<[o |-> "tv", i |-> i]>>, f[1], f[2], f[1] = "bad") /\ Step("inplace", f[1], f[2])
DropA == \E i \in First : \E f \in {"none", "bad"} :
              /\ Step("drop", f, 0)
              /\ LET gone(x) == IF f = "bad" THEN x ELSE [x EXCEPT !.ts[i].b = 0, !.free = @ \cup {x.ts[i].b}]
                 IN /\ s' = gone(s) /\ twin' = gone(twin)
                    /\ last' = [kind |-> "other", bad |-> 0, obs |-> Seen(s'), twin |-> Seen(twin'), blocks |-> Held(s')]
ConfigureA == \E f \in Faulty(2, 2) : Call("batch", Configure(s), f[1], f[2], FALSE) /\ Step("configure", f[1], f[2])
UpdateA == \E f \in Faulty(0, 4) :
              /\ Call("batch", Update, f[1], f[2], \E p \in P : s.ps[p].st = 0)
              /\ Step("update", f[1], f[2])
TrainA == \E f \in Faulty(3, 5) \cup {<<"bad", 0>>} : Call("graph", Train, f[1], f[2], f[1] = "bad") /\ Step("train", f[1], f[2])
EvalA == \E f \in Faulty(2, 2) \cup {<<"bad", 0>>} : Call("graph", Eval, f[1], f[2], f[1] = "bad") /\ Step("eval", f[1], f[2])

Init == s = Start /\ twin = Start /\ last = [kind |-> "other"] /\ hist = <<>>
Next == Len(hist) < MaxLen /\ (MakeA \/ InplaceA \/ DropA \/ ConfigureA \/ UpdateA \/ TrainA \/ EvalA)
Spec == Init /\ [][Next]_vars
View == <<s, twin, last, Len(hist)>>

Rules == [][Check = 1 => CallOk(Seen(s), <<>>, last')]_vars
\* every block is held by exactly one owner or free
Accounted == /\ Apart(Held(s)) /\ s.tmp = {}
             /\ {Held(s)[i] : i \in DOMAIN Held(s)} \cup s.free = 1 .. s.n
             /\ {Held(s)[i] : i \in DOMAIN Held(s)} \cap s.free = {}
\* later calls behave as if the failed ones had never happened
AsIfNever == Seen(s) = Seen(twin)
EmitStep == Len(hist') = MaxLen => PrintT("BEHAVIOUR " \o ToJson([ops |-> hist']))
=============================================================================
