------------------------------- MODULE Fix20 --------------------------------
(* Real numbers as intervals <<lo, hi>> of integers at scale 2^20, in 32-bit arithmetic.
   Every operator returns an interval that contains the real result.                    *)
EXTENDS Integers, Sequences, SequencesExt

One == 1048576
Pt(x)  == <<x, x>>
\* what was read from a float: rounded to the scale, computed in single precision
Read(x) == LET w == 2 + (IF x < 0 THEN -x ELSE x) \div 262144 IN <<x - w, x + w>>
Add(a, b) == <<a[1] + b[1], a[2] + b[2]>>
Sub(a, b) == <<a[1] - b[2], a[2] - b[1]>>
Neg(a) == <<-a[2], -a[1]>>
Join(a, b) == <<IF a[1] < b[1] THEN a[1] ELSE b[1], IF a[2] > b[2] THEN a[2] ELSE b[2]>>
SumIv(q) == FoldLeft(Add, Pt(0), q)

\* x * n / d rounded down, for a rational n / d >= 0
MulQ(x, n, d) == (x \div d) * n + ((x % d) * n) \div d
Times(a, q) == <<MulQ(a[1], q[1], q[2]), MulQ(a[2], q[1], q[2]) + 1>>

\* product of two numbers, within 2
MulN(x, y) ==
  LET xh == x \div 1024  xl == x % 1024
      yh == y \div 1024  yl == y % 1024
      m  == xh * yl + xl * yh
  IN xh * yh + m \div 1024 + ((m % 1024) * 1024 + xl * yl) \div One
MinOf4(p, q, r, s) == LET a == IF p < q THEN p ELSE q   b == IF r < s THEN r ELSE s IN IF a < b THEN a ELSE b
MaxOf4(p, q, r, s) == LET a == IF p > q THEN p ELSE q   b == IF r > s THEN r ELSE s IN IF a > b THEN a ELSE b
Mul(a, b) ==
  LET p == MulN(a[1], b[1])  q == MulN(a[1], b[2])  r == MulN(a[2], b[1])  s == MulN(a[2], b[2])
  IN <<MinOf4(p, q, r, s) - 1, MaxOf4(p, q, r, s) + 2>>
Sq(a) == IF a[1] >= 0 THEN <<MulN(a[1], a[1]) - 1, MulN(a[2], a[2]) + 2>>
         ELSE IF a[2] <= 0 THEN <<MulN(a[2], a[2]) - 1, MulN(a[1], a[1]) + 2>>
         ELSE LET m == IF -a[1] > a[2] THEN -a[1] ELSE a[2] IN <<0, MulN(m, m) + 2>>
Pos(a) == <<IF a[1] < 0 THEN 0 ELSE a[1], IF a[2] < 0 THEN 0 ELSE a[2]>>

\* x / y at scale 2^20 rounded down, y > 0
DivN(x, y) ==
  LET step(acc, i) == LET r == 2 * acc[2] IN IF r >= y THEN <<2 * acc[1] + 1, r - y>> ELSE <<2 * acc[1], r>>
  IN FoldLeft(step, <<x \div y, x % y>>, [i \in 1 .. 20 |-> i])[1]
\* b > 0
RECURSIVE Div(_, _)
Div(a, b) == IF b[2] >= 268435456 THEN Div(<<a[1] \div 8, a[2] \div 8 + 1>>, <<b[1] \div 8, b[2] \div 8 + 1>>) ELSE
             <<IF a[1] >= 0 THEN DivN(a[1], b[2]) ELSE DivN(a[1], b[1]),
               (IF a[2] >= 0 THEN DivN(a[2], b[1]) ELSE DivN(a[2], b[2])) + 1>>

RECURSIVE Bits_(_), Newton_(_, _)
Bits_(n) == IF n < 2 THEN 0 ELSE 1 + Bits_(n \div 2)
Newton_(n, x) == LET y == (x + n \div x) \div 2 IN IF y >= x THEN x ELSE Newton_(n, y)
IRoot(n) == IF n = 0 THEN 0 ELSE Newton_(n, 2 ^ ((Bits_(n) \div 2) + 1))
\* square root, within 2
RootN(x) == IF x <= 0 THEN 0
            ELSE IF x < 1024 THEN IRoot(x * One)
            ELSE LET y == IF x < One THEN IRoot(x * 1024) * 32 ELSE IRoot(x) * 1024
                 IN (y + DivN(x, y)) \div 2
Root(a) == LET l == RootN(a[1]) - 2 IN <<IF l < 0 THEN 0 ELSE l, RootN(a[2]) + 2>>

\* (n / d)^t
PowUp(q, t) == FoldLeft(LAMBDA a, i : <<MulQ(a[1], q[1], q[2]), MulQ(a[2], q[1], q[2]) + 1>>, Pt(One), [i \in 1 .. t |-> i])
\* powers of a fraction below one only decrease
PowQ(q, t) == IF t <= 1200 THEN PowUp(q, t)
              ELSE LET p == PowUp(q, 1200) IN IF q[1] < q[2] THEN <<0, p[2]>> ELSE p
Within(x, a) == LET w == 3 + (IF x < 0 THEN -x ELSE x) \div 131072 IN x >= a[1] - w /\ x <= a[2] + w
=============================================================================
