---------------------------- MODULE TraceDevices ----------------------------
(* Recorded histories on several devices against Devices: which kernels of which device were
   called, with whose tensors, and where the results live.                                   *)
EXTENDS Devices, IOUtils, Json

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, regs
vars == <<l, regs>>

Range_(q) == {q[i] : i \in DOMAIN q}
\* JSON arrays start at one, device numbers at zero
Tables(q) == [d \in 0 .. Len(q) - 1 |-> q[d + 1]]
Regs_(e) == CASE e.k = "begin" -> Tables(e.regs)
              [] e.k = "reg" -> [regs EXCEPT ![e.d] = Register(@, e.key, e.gen)]
              [] OTHER -> regs
Called(e) == {c[2] : c \in Range_(e.calls)}
Lives(q, d) == \A i \in DOMAIN q : q[i][1] = d /\ q[i][2] = d
Distinct(q) == \A i, j \in DOMAIN q : i # j => q[i] # q[j]
Unregistered(e, D) == e.miss # "" /\ \E d \in D, p \in {"fw:", "u32:", "f32:", "bw:"} : ~Has(regs[d], p \o e.miss)
Mem(e) == e.bad = 0 /\ e.kept = 1

OpOk(e) ==
  LET h == Home(e.on)
      ks == Kernels(e.op, e.sa, e.sb)
  IN /\ Mem(e)
     /\ \A c \in Range_(e.calls) : CallOk(regs, c)
     /\ IF h = Mixed
        THEN e.ok = 0
        ELSE /\ \A c \in Range_(e.calls) : c[1] = h
             /\ IF e.ok = 1
                THEN /\ ks # {} => ks \cap Called(e) # {}
                     /\ Lives(e.res, h) /\ Lives(e.grads, h) /\ Distinct(e.live)
                ELSE e.skip = 1 \/ Unregistered(e, {h})
DevOk(e) ==
  /\ Mem(e)
  /\ \A c \in Range_(e.calls) : CallOk(regs, c) /\ c[1] = e.at
  /\ IF (\A d \in Range_(e.on) : d = e.at) /\ Has(regs[e.at], e.key)
     THEN \* a kernel may be made of others
          \/ e.ok = 1 /\ e.key \in Called(e) /\ Lives(e.res, e.at)
          \/ e.ok = 0 /\ (e.skip = 1 \/ Unregistered(e, {e.at}))
     ELSE e.ok = 0 /\ e.calls = <<>>
CallByName(e) ==
  /\ Mem(e)
  /\ \A c \in Range_(e.calls) : CallOk(regs, c) /\ c[1] = e.at /\ c[2] = e.key
  /\ e.n = (IF Has(regs[e.at], e.key) THEN 1 ELSE 0)
  /\ ~Has(regs[e.at], e.key) => e.ok = 0
AnyOk(e) ==
  /\ Mem(e) /\ e.same = 1
  /\ \A c \in Range_(e.calls) : /\ c[1] \in Range_(e.on)
                                \* copying is how data gets from one device to another
                                /\ CallOk(regs, IF e.w = "copy" THEN [c EXCEPT ![4] = 0] ELSE c)
  /\ \A i \in DOMAIN e.res : Lives(e.res[i], e.on[i])
  /\ e.ok = 1 \/ e.skip = 1 \/ Unregistered(e, Range_(e.on))

EventOk(e) ==
  CASE e.k \in {"begin", "reg"} -> TRUE
    [] e.k = "op" -> OpOk(e)
    [] e.k = "dev" -> DevOk(e)
    [] e.k = "call" -> CallByName(e)
    [] e.k = "any" -> AnyOk(e)

Init == l = 0 /\ regs = <<>>
Next == /\ l < Len(Trace)
        /\ l' = l + 1
        /\ \E e \in {Trace[l + 1]} : regs' = Regs_(e)
Spec == Init /\ [][Next]_vars
Conforms == l = Len(Trace) \/ EventOk(Trace[l + 1]) \/ (PrintT(<<"REJECT", l + 1>>) /\ TLCSet(1, 1))
Accepted == TLCGet("stats").diameter - 1 = Len(Trace) /\ TLCGet(1) = 0
ASSUME TLCSet(1, 0)
=============================================================================
