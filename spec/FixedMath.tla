----------------------------- MODULE FixedMath ------------------------------
(* Real functions in fixed point (scale FS = 2^14), from the tables of FunTables. *)
EXTENDS Integers, Sequences, FunTables, SequencesExt

Abs(x)  == IF x < 0 THEN -x ELSE x
Sgn(x)  == IF x < 0 THEN -1 ELSE IF x > 0 THEN 1 ELSE 0
\* division rounded to nearest, any signs
RDiv(a, b) == IF b < 0 THEN (2 * (-a) - b) \div (2 * (-b)) ELSE (2 * a + b) \div (2 * b)
\* exact division, any signs
XDiv(a, b) == IF b < 0 THEN (-a) \div (-b) ELSE a \div b
F(T, v) == T[v - Lo + 1]
ExpV(v) == IF v < Lo THEN 0 ELSE TExp[v - Lo + 1]        \* exp(v/16)

RECURSIVE Log2(_)
Log2(n) == IF n < 2 THEN 0 ELSE 1 + Log2(n \div 2)
\* ln(n / 2^14) at scale 2^14, n >= 1
LnFix(n) ==
  LET e == Log2(n)
      w == IF e >= 8 THEN 2 ^ (e - 8) ELSE 1
      m == IF e >= 8 THEN n \div w ELSE n * 2 ^ (8 - e)
      r == IF e >= 8 THEN n % w ELSE 0
      j == m - 256
      t == TLn1[j + 1] + ((TLn1[j + 2] - TLn1[j + 1]) * r) \div w
  IN RDiv((e - 14) * Ln2 + t, 4)
\* exp(z / 2^14) at scale 2^14
ExpFix(z) ==
  LET v == z \div 1024
      m == z - v * 1024
      q == m + (m * m) \div 32768 + (((m * m) \div 16384) * m) \div 98304
      t == ExpV(v)
  IN t + (t * q) \div 16384
\* (x/16)^(k/16)
PowFix(x, k) ==
  IF k = 0 THEN FS
  ELSE IF x = 0 THEN 0
  ELSE LET p == ExpFix(RDiv(LnFix(Abs(x) * 1024) * k, 16))
       IN IF x < 0 /\ (k \div 16) % 2 = 1 THEN -p ELSE p
\* product of two fixed-point numbers at scale 2^14
MulFix(y, l) == LET q == y \div 1024
                    r == y % 1024
                IN (q * l) \div 16 + RDiv(((q * l) % 16) * 1024 + r * l, FS)
IPow(x, k) == x ^ k
\* x^k at scale s for an integer k, where the result is representable
PowI(x, k, s) ==
  IF k = 0 THEN s ELSE IF Abs(x) = 1 THEN s * (IF x = 1 \/ k % 2 = 0 THEN 1 ELSE -1)
  ELSE IF k >= 0 THEN s * x ^ k ELSE XDiv(s, x ^ (-k))
MaxOf(q) == FoldLeft(LAMBDA a, x : IF x > a THEN x ELSE a, q[1], q)
MinOf(q) == FoldLeft(LAMBDA a, x : IF x < a THEN x ELSE a, q[1], q)
SumOf(q) == FoldLeft(LAMBDA a, x : a + x, 0, q)
\* log-sum-exp of q[i]/16, softmax of its i-th element
ExpSum(q) == LET m == MaxOf(q) IN SumOf([i \in 1 .. Len(q) |-> ExpV(q[i] - m)])
LseFix(q) == MaxOf(q) * 1024 + LnFix(ExpSum(q))
SoftFix(q, i) == RDiv(ExpV(q[i] - MaxOf(q)) * FS, ExpSum(q))
RECURSIVE Newton(_, _)
Newton(n, x) == LET y == (x + n \div x) \div 2 IN IF y >= x THEN x ELSE Newton(n, y)
ISqrt(n) == IF n = 0 THEN 0 ELSE Newton(n, 2 ^ ((Log2(n) \div 2) + 1))
=============================================================================
