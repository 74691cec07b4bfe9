----------------------------- MODULE TraceLife ------------------------------
(* Recorded histories of real tensors against TensorLife: which requests are accepted, what
   every tensor then shows, that no two owners share a block, and that at the end the
   backend has every block back exactly once.                                        (C11) *)
EXTENDS TensorLife, IOUtils, Json

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, S
vars == <<l, S>>

Empty(n) == [s \in 1 .. n |-> Gone]
Request(e) == [a |-> e.a, s |-> e.s, d |-> e.d, sh |-> Sh(e.sh.d, e.sh.b), t |-> e.t, vals |-> e.vals]

\* what is seen of the tensors: a sequence of [s, v (valid), d, b (block), sh, x (values)]
Seen(T, obs) ==
  /\ {obs[i].s : i \in DOMAIN obs} = {s \in DOMAIN T : T[s].st # "none"}
  /\ \A i \in DOMAIN obs :
       LET o == obs[i]
           x == T[o.s]
       IN /\ o.v = IF HasData(x) THEN 1 ELSE 0
          /\ o.d = x.dev
          /\ Sh(o.sh.d, o.sh.b) = x.sh
          /\ HasData(x) => o.b # 0 /\ (x.vals = Unset \/ o.x = x.vals)
  /\ \A i, j \in DOMAIN obs :
       (i < j /\ T[obs[i].s].st = "owned" /\ T[obs[j].s].st = "owned" /\ obs[i].d = obs[j].d) => obs[i].b # obs[j].b

EventOk(e) ==
  CASE e.k = "begin" -> TRUE
    [] e.k = "op" -> LET o == Request(e)
                     IN /\ Can(o, S)
                        /\ e.ok = (IF Ok(o, S) THEN 1 ELSE 0)
                        /\ Seen(After(o, S, 1), e.obs)
    \* obtained from the backend, given back, given back wrongly; memory outside blocks untouched
    [] e.k = "end" -> \A i \in DOMAIN e.devs : LET c == e.devs[i] IN c[1] = c[2] /\ c[3] = 0 /\ c[4] = 1
State(e) ==
  CASE e.k = "begin" -> Empty(e.n)
    [] e.k = "op" -> After(Request(e), S, 1)
    [] OTHER -> S

Init == l = 0 /\ S = <<>>
Next == /\ l < Len(Trace)
        /\ l' = l + 1
        /\ \E e \in {Trace[l + 1]} : S' = State(e)
Spec == Init /\ [][Next]_vars
Conforms == l = Len(Trace) \/ EventOk(Trace[l + 1]) \/ (PrintT(<<"REJECT", l + 1>>) /\ TLCSet(1, 1))
Accepted == TLCGet("stats").diameter - 1 = Len(Trace) /\ TLCGet(1) = 0
ASSUME TLCSet(1, 0)
=============================================================================
