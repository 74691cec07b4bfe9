---------------------------- MODULE TraceOptim ------------------------------
(* Recorded histories of real optimizers and parameters against Optim.
   ASPECT equation: what an update makes of values and statistics               (C12)
   ASPECT book:     everything else, bit by bit                                  (C13) *)
EXTENDS Optim, IOUtils, Json

Trace  == ndJsonDeserialize(IOEnv.TRACE)
Aspect == IOEnv.ASPECT
\* os: optimizers as last requested; obs: what was last seen
VARIABLES l, os, obs
vars == <<l, os, obs>>

Range_(q) == {q[i] : i \in DOMAIN q}
New(e) == [kind |-> e.kind, h |-> e.h, t |-> 0, sc |-> <<1, 1>>, l2 |-> <<0, 1>>, cl |-> <<0, 1>>]
\* getters, as bit patterns of single-precision numbers
Fresh_ == [t |-> 0, sc |-> 1065353216, l2 |-> 0, cl |-> 0]

Opts_(e) ==
  CASE e.k = "begin" -> <<>>
    [] e.k = "opt" -> Append(os, New(e))
    [] e.k = "set" /\ e.ok = 1 -> [os EXCEPT ![e.o] = [@ EXCEPT ![e.w] = e.q]]
    [] OTHER -> os

SameExcept(q, r, P) == Len(q) = Len(r) /\ \A i \in DOMAIN q : i \in P \/ q[i] = r[i]
Exact(p) == [v |-> p.v, g |-> p.g, st |-> p.st]
ParamsSame(e, P) == /\ Len(e.obs.ps) = Len(obs.ps)
                    /\ \A i \in DOMAIN obs.ps : i \in P \/ Exact(obs.ps[i]) = Exact(e.obs.ps[i])
OptsSame(e, O) == SameExcept(obs.os, e.obs.os, O)

BookOk(e) ==
  CASE e.k = "begin" -> TRUE
    [] e.k = "opt" -> /\ ParamsSame(e, {})
                      /\ e.obs.os = Append(obs.os, Fresh_)
    [] e.k = "param" -> /\ OptsSame(e, {})
                        /\ Len(e.obs.ps) = Len(obs.ps) + 1
                        /\ \A i \in DOMAIN obs.ps : Exact(obs.ps[i]) = Exact(e.obs.ps[i])
                        /\ LET p == e.obs.ps[Len(e.obs.ps)]
                           IN p.v = e.v /\ p.g = Zeros(Len(e.v)) /\ DOMAIN p.st = {}
    [] e.k = "again" -> /\ OptsSame(e, {}) /\ ParamsSame(e, {e.p})
                        /\ Exact(e.obs.ps[e.p]) = [v |-> e.v, g |-> Zeros(Len(e.v)), st |-> <<>>]
    [] e.k \in {"grad", "value"} ->
                       /\ OptsSame(e, {}) /\ ParamsSame(e, {e.p})
                       /\ Exact(e.obs.ps[e.p]) = [Exact(obs.ps[e.p]) EXCEPT ![IF e.k = "grad" THEN "g" ELSE "v"] = e.v]
    [] e.k = "configure" ->
                       /\ e.ok = 1
                       /\ OptsSame(e, {}) /\ ParamsSame(e, Range_(e.ps))
                       /\ \A i \in Range_(e.ps) : Exact(e.obs.ps[i]) = Configure(os[e.o], Exact(obs.ps[i]))
    [] e.k = "update" ->
         IF CanUpdate(os[e.o], Range_(e.ps), obs.ps)
         THEN /\ e.ok = 1
              /\ OptsSame(e, {e.o})
              /\ e.obs.os[e.o] = [obs.os[e.o] EXCEPT !.t = @ + 1]
              /\ ParamsSame(e, Range_(e.ps))
              /\ \A i \in Range_(e.ps) : Updated(os[e.o], obs.ps[i], e.obs.ps[i])
         ELSE e.ok = 0 /\ OptsSame(e, {}) /\ ParamsSame(e, {})
    [] e.k = "set" -> /\ e.ok = (IF SettingOk(e.c) THEN 1 ELSE 0)
                      /\ ParamsSame(e, {}) /\ OptsSame(e, {e.o})
                      /\ e.obs.os[e.o] = IF e.ok = 1 THEN [obs.os[e.o] EXCEPT ![e.w] = e.b] ELSE obs.os[e.o]
    [] e.k = "epoch" -> /\ ParamsSame(e, {}) /\ OptsSame(e, {e.o})
                        /\ e.obs.os[e.o] = [obs.os[e.o] EXCEPT !.t = e.t]

\* a zero is exactly zero, anything else is known up to the recorded precision
Seen(b, x) == IF IsZero(b) THEN Pt(0) ELSE Read(x)
EquationOk(e) ==
  \/ e.k # "update" \/ e.ok = 0
  \/ LET o  == [os[e.o] EXCEPT !.t = obs.os[e.o].t]
         c  == Corrections(o)
         D  == [i \in DOMAIN e.ps |-> LET p == obs.ps[e.ps[i]] IN [j \in DOMAIN p.fv |-> Decayed(o, Seen(p.v[j], p.fv[j]), Seen(p.g[j], p.fg[j]))]]
         u  == IF o.cl[1] = 0 THEN 1 ELSE Unit(D)
         N  == IF o.cl[1] = 0 THEN Pt(0) ELSE Norm(u, D)
     IN \A i \in DOMAIN e.ps :
          LET p == obs.ps[e.ps[i]]
              q == e.obs.ps[e.ps[i]]
          IN /\ Len(q.fv) = Len(p.fv)
             /\ \A j \in DOMAIN p.fv :
                  LET r == Step(o, c, Seen(p.v[j], p.fv[j]), Clipped(o, u, N, D[i][j]),
                                [s \in StatsOf(o.kind) |-> Seen(p.st[s][j], p.fst[s][j])])
                  IN /\ Within(q.fv[j], r.v)
                     /\ \A s \in StatsOf(o.kind) : Within(q.fst[s][j], r.st[s])

EventOk(e) == IF Aspect = "book" THEN BookOk(e) ELSE EquationOk(e)
Init == l = 0 /\ os = <<>> /\ obs = [os |-> <<>>, ps |-> <<>>]
Next == /\ l < Len(Trace)
        /\ l' = l + 1
        /\ \E e \in {Trace[l + 1]} :
             /\ os' = Opts_(e)
             /\ obs' = e.obs
Spec == Init /\ [][Next]_vars
Conforms == l = Len(Trace) \/ EventOk(Trace[l + 1]) \/ (PrintT(<<"REJECT", l + 1>>) /\ TLCSet(1, 1))
Accepted == TLCGet("stats").diameter - 1 = Len(Trace) /\ TLCGet(1) = 0
ASSUME TLCSet(1, 0)
=============================================================================
