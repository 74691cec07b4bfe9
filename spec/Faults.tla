------------------------------- MODULE Faults -------------------------------
(* What a call may leave behind when it is rejected or cut short by a failing allocation or
   kernel.  The contents that a user can observe are
     [ts |-> contents of the tensors (-1: dropped), ps |-> per parameter value, gradient and two
      statistics (0: none), e |-> the epoch of the optimizer].
   A call c is judged against the contents before it (prev), against the contents afterwards in
   a twin world where no fault ever strikes (c.twin), and, for calls of several steps, against
   what the complete call does to the twin (c.full).                                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Apart(q) == \A i, j \in DOMAIN q : i # j => q[i] # q[j]
Cut(c) == c.fired = 1 /\ c.ok = 0

\* one step: all or nothing
SingleOk(prev, c) ==
  IF Cut(c) THEN c.obs = prev
  ELSE c.ok = c.tok /\ c.res = c.tres /\ (c.ok = 0 => c.obs = prev)

\* configuring or updating all parameters: each step entirely or not at all.  The statistics of
\* one parameter, the one at which the call was cut, may be between two steps, and so may be
\* gradients that the call itself decays or clips.
OneOf(x, a, b) == x = a \/ x = b
Between(prev, c) ==
  LET P == DOMAIN prev.ps
      Stats(i) == \A j \in 3 .. 4 : OneOf(c.obs.ps[i][j], prev.ps[i][j], c.full.ps[i][j])
  IN /\ c.obs.ts = prev.ts
     /\ DOMAIN c.obs.ps = P /\ DOMAIN c.full.ps = P
     /\ \A i \in P : /\ OneOf(c.obs.ps[i][1], prev.ps[i][1], c.full.ps[i][1])
                     /\ c.loose = 1 \/ OneOf(c.obs.ps[i][2], prev.ps[i][2], c.full.ps[i][2])
     /\ Cardinality({i \in P : ~Stats(i)}) <= 1
     /\ OneOf(c.obs.e, prev.e, c.full.e)
\* c.short: how many statistics of the algorithm are missing when configuring succeeds
BatchOk(prev, c) ==
  IF Cut(c) THEN Between(prev, c)
  ELSE c.ok = c.tok /\ (IF c.ok = 0 THEN c.obs = prev ELSE c.short = 0)

\* The last np nodes are pairs, each the outputs of one operation: one of them has a value, the
\* other one does not, so that the operation is to be run again.
Halfway(pnv, np, i) ==
  LET k == i - (Len(pnv) - np)
  IN k >= 1 /\ pnv[IF k % 2 = 1 THEN i + 1 ELSE i - 1] = 0

\* evaluating and back-propagating: nothing but gradients of parameters change, each by the whole
\* contribution of the graph or not at all; nodes have no value yet or the right one for good
GraphOk(prev, pnv, c) ==
  /\ c.obs.ts = prev.ts /\ c.obs.e = prev.e /\ Len(c.obs.ps) = Len(prev.ps)
  /\ \A i \in DOMAIN prev.ps : \A j \in {1, 3, 4} : c.obs.ps[i][j] = prev.ps[i][j]
  /\ IF Cut(c) THEN \A i \in DOMAIN prev.ps : OneOf(c.obs.ps[i][2], prev.ps[i][2], c.full.ps[i][2])
     ELSE c.ok = c.tok /\ c.res = c.tres /\ (c.ok = 0 => c.obs = prev)
  /\ \A i \in DOMAIN c.nv : OneOf(c.nv[i], 0, c.tnv[i])
  /\ \A i \in DOMAIN pnv : pnv[i] # 0 => \/ c.nv[i] = pnv[i]
                                         \/ c.nv[i] = 0 /\ Halfway(pnv, c.np, i)

CallOk(prev, pnv, c) ==
  /\ c.bad = 0 /\ Apart(c.blocks) /\ c.obs = c.twin
  /\ CASE c.kind = "single" -> SingleOk(prev, c)
       [] c.kind = "batch" -> BatchOk(prev, c)
       [] c.kind = "graph" -> GraphOk(prev, pnv, c)
       [] OTHER -> TRUE

\* all memory came back exactly once
EndOk(e) == e.bad = 0 /\ e.once = e.blocks /\ e.tonce = e.tblocks
=============================================================================
