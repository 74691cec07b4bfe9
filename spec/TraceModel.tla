----------------------------- MODULE TraceModel -----------------------------
(* Recorded calls on whole models against ModelTree: which parameters are enumerated, and which
   ones moving, configuring and updating the model reaches.  The optimizer used has rate 1 and
   momentum 1, so that what an update does to a parameter counts how often it was reached.
   A parameter is seen as [d: where its tensors live (0: nowhere yet), v, g: value and gradient,
   st: statistics].                                                                          *)
EXTENDS ModelTree, IOUtils, Json, TLC

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, t, obs
vars == <<l, t, obs>>

Range_(q) == {q[i] : i \in DOMAIN q}
Tree_(e) == CASE e.k = "make" -> e.t
              [] e.k = "grow" -> Grow(t, e.path)
              [] e.k = "shrink" -> Shrink(t, e.path)
              [] OTHER -> t
Zeros(n) == [i \in 1 .. n |-> 0]
Plus(a, b) == [i \in DOMAIN a |-> a[i] + b[i]]
Minus(a, b) == [i \in DOMAIN a |-> a[i] - b[i]]

\* what each call makes of one of the model's parameters
Configured(p) == IF p.st # <<>> THEN p ELSE [p EXCEPT !.st = <<Zeros(Len(p.v))>>, !.d = Append(@, Head(@))]
Updated(p) == LET m == Minus(p.st[1], p.g)
              IN [p EXCEPT !.v = Plus(@, m), !.st = <<m>>, !.g = Zeros(Len(p.g))]
Visited(p) == [p EXCEPT !.g = Zeros(Len(p.g))]
Moved(e, p, i) == [d |-> [j \in DOMAIN p.d |-> e.to], v |-> e.host[i].v, g |-> e.host[i].g, st |-> p.st]

Each(e, Op(_)) == /\ Len(e.obs) = Len(obs)
                  /\ \A i \in DOMAIN obs : e.obs[i] = IF i \in Range_(Own(t)) THEN Op(obs[i]) ELSE obs[i]
Same(e) == e.obs = obs
Enumerated(e) == LET o == Own(Tree_(e)) IN e.got = o /\ e.gotmut = o

EventOk(e) ==
  /\ Enumerated(e)
  /\ CASE e.k \in {"make", "grow", "shrink"} -> e.t = Tree_(e) /\ Len(e.obs) = Len(Leaves(e.t, TRUE))
       [] e.k = "fill" -> Len(e.obs) = Len(obs)
       [] e.k = "configure" -> e.ok = 1 /\ Each(e, Configured)
       [] e.k = "update" ->
            IF \A i \in Range_(Own(t)) : obs[i].st # <<>>
            THEN e.ok = 1 /\ Each(e, Updated)
            ELSE e.ok = 0 /\ Same(e)
       \* a user's own optimizer is handed every parameter once
       [] e.k = "visit" -> /\ e.ok = 1 /\ Cardinality(Range_(e.seen)) = Len(e.seen) /\ Range_(e.seen) = Range_(Own(t))
                           /\ e.confd = e.seen
                           /\ Each(e, Visited)
       [] e.k = "move" ->
            IF \A i \in Range_(Own(t)) : obs[i].d[1] = 0
            THEN /\ e.ok = 1 /\ Len(e.obs) = Len(obs)
                 /\ \A i \in DOMAIN obs : e.obs[i] = IF i \in Range_(Own(t)) THEN Moved(e, obs[i], i) ELSE obs[i]
            ELSE e.ok = 0 /\ Same(e)

Init == l = 0 /\ t = [n |-> "f", c |-> <<>>] /\ obs = <<>>
Next == /\ l < Len(Trace)
        /\ l' = l + 1
        /\ \E e \in {Trace[l + 1]} : t' = Tree_(e) /\ obs' = e.obs
Spec == Init /\ [][Next]_vars
Conforms == l = Len(Trace) \/ EventOk(Trace[l + 1]) \/ (PrintT(<<"REJECT", l + 1>>) /\ TLCSet(1, 1))
Accepted == TLCGet("stats").diameter - 1 = Len(Trace) /\ TLCGet(1) = 0
ASSUME TLCSet(1, 0)
=============================================================================
