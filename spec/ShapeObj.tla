------------------------------ MODULE ShapeObj ------------------------------
(* Shape objects and the requests on them.

   Sizes go up to 2^32-1, beyond TLC's integers: a number is <<d0, d1, d2>>,
   d0 + 4096*d1 + 4096^2*d2.  A shape is its axis sizes without trailing ones and
   its batch size - nothing else, in particular no history.                     *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

MaxAxes == 8
Zero == <<0, 0, 0>>
One  == <<1, 0, 0>>
Num(n) == <<n % 4096, (n \div 4096) % 4096, n \div 16777216>>

\* product; <<>> when it does not fit 32 bits
Mul(a, b) ==
  IF a = <<>> \/ b = <<>> THEN <<>>
  ELSE LET p(k) == FoldLeft(LAMBDA s, i : IF k - i \in 1 .. 3 THEN s + a[i] * b[k - i] ELSE s, 0, <<1, 2, 3>>)
           c2 == p(2)
           c3 == p(3) + c2 \div 4096
           c4 == p(4) + c3 \div 4096
           c5 == p(5) + c4 \div 4096
           c6 == p(6) + c5 \div 4096
       IN IF c5 > 0 \/ c6 > 0 \/ c4 > 255 THEN <<>>
          ELSE <<c2 % 4096, c3 % 4096, c4>>
ProdN(q) == FoldLeft(Mul, One, q)

RECURSIVE Strip(_)
Strip(d) == IF Len(d) > 0 /\ d[Len(d)] = One THEN Strip(SubSeq(d, 1, Len(d) - 1)) ELSE d

None == [d |-> <<>>, b |-> Zero]          \* no shape: batch zero never occurs
Ax(s, i) == IF i < Len(s.d) THEN s.d[i + 1] ELSE One
Volume(s) == ProdN(s.d)
Elements(s) == Mul(Volume(s), s.b)
Least(a, b) == IF a < b THEN a ELSE b

Legal(d, b) == /\ \A k \in 1 .. Len(d) : d[k] # Zero
               /\ b # Zero
               /\ Mul(ProdN(d), b) # <<>>
Make(d, b) == IF Len(d) <= MaxAxes /\ Legal(d, b) THEN [d |-> Strip(d), b |-> b] ELSE None
\* the shape after a request, None when the request is rejected
WithAxis(s, i, m) ==
  IF i >= MaxAxes THEN None
  ELSE LET n == IF Len(s.d) > i THEN Len(s.d) ELSE i + 1
       IN Make([k \in 1 .. n |-> IF k = i + 1 THEN m ELSE Ax(s, k - 1)], s.b)
WithBatch(s, b) == Make(s.d, b)

-----------------------------------------------------------------------------
(* Observable attributes, all functions of (axes, batch). *)
SameAxes(s, t) == s.d = t.d
SameBut(s, t, i) == \A k \in 0 .. MaxAxes - 1 : k = i \/ Ax(s, k) = Ax(t, k)
CompatibleBatch(s, t) == s.b = t.b \/ s.b = One \/ t.b = One
Bit(p) == IF p THEN 1 ELSE 0
Observed(s) ==
  [ depth |-> Len(s.d), dims |-> s.d, b |-> s.b, vol |-> Volume(s), size |-> Elements(s),
    ax |-> [i \in 1 .. 10 |-> Ax(s, i - 1)],
    lower |-> [i \in 1 .. 11 |-> ProdN(SubSeq(s.d, 1, Least(i - 1, Len(s.d))))],
    hasb |-> Bit(s.b # One), scalar |-> Bit(Len(s.d) = 0), col |-> Bit(Len(s.d) <= 1),
    mat |-> Bit(Len(s.d) <= 2), sd |-> s.d, sb |-> s.b ]
Pair(s, t) ==
  [ eq |-> Bit(s = t), same |-> Bit(SameAxes(s, t)), compat |-> Bit(CompatibleBatch(s, t)),
    loo |-> [i \in 1 .. 10 |-> Bit(SameBut(s, t, i - 1))] ]
=============================================================================
