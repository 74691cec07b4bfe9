-------------------------------- MODULE Batch --------------------------------
(* A minibatch is its samples processed one by one.

   The batch sizes bs of the operands of a call (a list of ids that picks per sample counts as
   an operand) go together when each is one or the common size.  Then the call is the
   calls on its samples: accepted iff all of them are, results sample by sample, the gradient
   of an operand with one sample the sum over the calls, that of another from its own call. *)
EXTENDS Integers, Sequences

Largest(q) == LET S == {q[i] : i \in DOMAIN q} IN CHOOSE m \in S : \A x \in S : x <= m
Abso(a) == IF a < 0 THEN -a ELSE a
Together(bs) == LET B == Largest(bs) IN \A i \in DOMAIN bs : bs[i] \in {1, B}

\* the part of sample s (from 0) of a list q that holds n samples, every one as long as the others
SampleOf(q, n, s) == LET k == Len(q) \div n IN SubSeq(q, IF n = 1 THEN 1 ELSE s * k + 1, IF n = 1 THEN k ELSE (s + 1) * k)
RECURSIVE SumUpto(_, _)
SumUpto(f, n) == IF n = 0 THEN 0 ELSE f[n] + SumUpto(f, n - 1)

\* numbers that stand for infinities and the like, or too large to add up
Wild(a) == Abso(a) > 300000000
\* ex: exactly; otherwise up to rounding
Same(ex, a, b) == a = b \/ (ex = 0 /\ ~Wild(a) /\ ~Wild(b) /\ Abso(a - b) <= 2 + Abso(a) \div 32768)

ResultOk(e, B, y, ys) ==           \* ys: the samples' results
  /\ y.b = B
  /\ \A s \in 1 .. B : ys[s].d = y.d /\ ys[s].b = 1 /\ Len(ys[s].v) * B = Len(y.v)
  /\ \A s \in 1 .. B : LET n == Len(ys[s].v) IN \A i \in 1 .. n : Same(e.ex, ys[s].v[i], y.v[(s - 1) * n + i])

\* the gradient of an operand with n samples
GradOk(e, B, n, g, gs) ==
  IF n = B /\ B > 1
  THEN \A s \in 1 .. B : LET m == Len(gs[s]) IN
         /\ Len(g) = m * B
         /\ \A i \in 1 .. m : Same(e.ex, gs[s][i], g[(s - 1) * m + i])
  ELSE \A i \in 1 .. Len(g) :
         LET t == [s \in 1 .. B |-> gs[s][i]]
         IN \/ \E s \in 1 .. B : Wild(t[s])
            \/ LET w == SumUpto(t, B)
                   tol == IF e.ex = 1 THEN 0 ELSE 2 + B + SumUpto([s \in 1 .. B |-> Abso(t[s]) \div 16384], B)
               IN Abso(g[i] - w) <= tol

\* a target with one sample takes the changes of all samples
TargetOk(e, B, y, ys) ==
  /\ y.b = 1
  /\ \A s \in 1 .. B : ys[s].d = y.d /\ Len(ys[s].v) = Len(y.v)
  /\ \A i \in 1 .. Len(y.v) : y.v[i] = e.x0[i] + SumUpto([s \in 1 .. B |-> ys[s].v[i] - e.x0[i]], B)

OneOk(e) ==
  LET B == Largest(e.bs)
      all == \A s \in 1 .. Len(e.sm) : e.sm[s].ok = 1
  IN IF ~Together(e.bs) THEN e.ok = 0
     ELSE /\ Len(e.sm) = B
          /\ e.ok = (IF all THEN 1 ELSE 0)
          /\ all =>
             /\ \A s \in 1 .. B : Len(e.sm[s].ys) = Len(e.ys) /\ Len(e.sm[s].gx) = Len(e.gx)
             /\ \A k \in 1 .. Len(e.ys) :
                  LET ys == [s \in 1 .. B |-> e.sm[s].ys[k]]
                  IN IF e.tgt = 1 THEN TargetOk(e, B, e.ys[k], ys) ELSE ResultOk(e, e.yb[k], e.ys[k], SubSeq(ys, 1, e.yb[k]))
             /\ \A k \in 1 .. Len(e.gx) : GradOk(e, B, e.bs[k], e.gx[k], [s \in 1 .. B |-> e.sm[s].gx[k]])
\* the batch size of each result follows from the operands it is made of: for a single call the common size
YbOk(e) == e.k = "one" => \A k \in 1 .. Len(e.ys) : e.tgt = 1 \/ e.yb[k] = Largest(e.bs)

\* taking apart and putting together is the identity, forwards and backwards
JoinOk(e) ==
  /\ e.ok = 1
  /\ e.y.d = e.x.d /\ e.y.b = e.x.b /\ Len(e.y.v) = Len(e.x.v)
  /\ \A i \in 1 .. Len(e.x.v) : Same(e.ex, e.x.v[i], e.y.v[i])
  /\ Len(e.gx) = Len(e.gy)
  /\ \A k \in 1 .. Len(e.gx) :
       /\ Len(e.gx[k]) = Len(e.gy[k])
       /\ \A i \in 1 .. Len(e.gx[k]) :
            \/ Wild(e.gx[k][i])
            \/ Abso(e.gx[k][i] - e.gy[k][i]) <= IF e.ex = 1 THEN 0 ELSE 16 + Abso(e.gx[k][i]) \div 4096
=============================================================================
