------------------------------ MODULE Extremes -------------------------------
(* Non-linear functions at arguments of every magnitude.
   A number is <<sign, mantissa, exponent>> with a mantissa of 24 bits; <<s,-1,0>> is
   infinite, <<0,0,0>> zero, <<0,-2,0>> not a number (in a table: nothing is said).     *)
EXTENDS ExtTables, FixedMath, FiniteSets

Inf(s) == <<s, -1, 0>>
IsInf(a) == a[2] = -1
IsNum(a) == a[2] >= 0
Minus(a) == <<-a[1], a[2], a[3]>>
Far == 2000000000

\* distance of two finite numbers in units in the last place of the smaller exponent
Dist(a, b) ==
  IF a = b THEN 0
  ELSE IF a[1] # b[1] THEN Far
  ELSE IF a[3] = b[3] THEN Abs(a[2] - b[2])
  ELSE IF a[3] = b[3] + 1 THEN Abs(2 * a[2] - b[2])
  ELSE IF b[3] = a[3] + 1 THEN Abs(2 * b[2] - a[2])
  ELSE Far
\* |a| in steps of 2^-p, rounded down (for |a| < 2^(30-p))
Steps(a, p) == IF a[2] <= 0 THEN 0
               ELSE IF a[3] + p >= 7 THEN Far
               ELSE IF a[3] + p >= 0 THEN a[2] * 2 ^ (a[3] + p)
               ELSE IF a[3] + p > -30 THEN a[2] \div 2 ^ (-(a[3] + p)) ELSE 0
SSteps(a, p) == a[1] * Steps(a, p)
Small(a, p) == a[2] = 0 \/ a[3] + p < 5

(* y stands for the real number d: within w units in the last place, or within w units of
   the last place of numbers next to one, or, at the lower end of the format, within w of
   its smallest steps                                                                    *)
Stands(y, d, w, one) ==
  IF d[2] = -2 THEN TRUE
  ELSE IF ~IsNum(d) \/ ~IsNum(y) THEN y = d
  ELSE \/ Dist(y, d) <= w
       \/ one = 1 /\ Small(y, 25) /\ Small(d, 25) /\ Abs(SSteps(y, 25) - SSteps(d, 25)) <= 2 * w
       \/ Small(y, 149) /\ Small(d, 149) /\ Abs(SSteps(y, 149) - SSteps(d, 149)) <= w + 1

FunOk(e) == e.ok = 1 /\ LET c == Cases[e.i] IN Stands(e.y, c.y, c.w, c.s) /\ ("g" \in DOMAIN e => Stands(e.g, c.g, c.w, c.s))

(* A line of arguments M[i] * 2^E, with 2^E so large that only the largest count.       *)
NegInf == -99
LMax(M) == MaxOf(M)
Ties(M) == {i \in DOMAIN M : M[i] = LMax(M)}
NT(M)   == IF LMax(M) = NegInf THEN 0 ELSE Cardinality(Ties(M))
\* ln n at scale 2^16
LnInt == <<0, 45426, 71999, 90852, 105476, 117425>>
LnN(n) == IF n <= 1 THEN 0 ELSE LnInt[n]

\* the float y stands for A * 2^E + c / 2^16 (E <= 12 or E >= 40)
IsSum(y, A, E, c) ==
  IF ~IsNum(y) THEN FALSE
  ELSE IF A = 0 THEN Small(y, 16) /\ Abs(SSteps(y, 16) - c) <= 2
  ELSE IF E <= 12 THEN LET r == A * 2 ^ (E + 10) + c \div 64
                       IN Small(y, 10) /\ Abs(SSteps(y, 10) - r) <= 3 + Abs(r) \div 2097152
  ELSE LET Norm(m, x) == LET k == 23 - Log2(m) IN <<m * 2 ^ k, x - k>>
           n == Norm(Abs(A), E)
       IN Dist(y, <<Sgn(A), n[1], n[2]>>) <= 2
\* the float y stands for p / q
IsRatio(y, p, q) == IsNum(y) /\ Small(y, 24) /\ Abs(SSteps(y, 24) - RDiv(p * 16777216, q)) <= 16

LseOk(M, E, y) == IF LMax(M) = NegInf THEN y = Inf(-1) ELSE IsSum(y, LMax(M), E, LnN(NT(M)))
LnOk(M, E, i, y, sg) ==   \* sg = -1: its negation
  LET z == IF sg = 1 THEN y ELSE Minus(y)
  IN IF M[i] = NegInf THEN z = Inf(-1) ELSE IsSum(z, M[i] - LMax(M), E, -LnN(NT(M)))
Soft(M, i) == IF i \in Ties(M) THEN <<1, NT(M)>> ELSE <<0, 1>>
\* exp(-16 k) / n: a share far below the largest is still told to its own precision
Share == <<
  <<<<1, 15837918, -47>>, <<1, 15837918, -48>>, <<1, 10558612, -48>>, <<1, 15837918, -49>>>>,
  <<<<1, 14951208, -70>>, <<1, 14951208, -71>>, <<1, 9967472, -71>>, <<1, 14951208, -72>>>>,
  <<<<1, 14114141, -93>>, <<1, 14114141, -94>>, <<1, 9409428, -94>>, <<1, 14114141, -95>>>>,
  <<<<1, 13323940, -116>>, <<1, 13323940, -117>>, <<1, 8882626, -117>>, <<1, 13323940, -118>>>>,
  <<<<1, 12577978, -139>>, <<1, 12577978, -140>>, <<1, 16770638, -141>>, <<1, 12577978, -141>>>> >>
TailOk(M, E, i, y) ==
  LET k == LMax(M) - M[i]
  IN E = 4 /\ M[i] # NegInf /\ k > 0 => Dist(y, Share[k][NT(M)]) <= 16 * k + 16
SoftOk(M, i, y) == IsRatio(y, Soft(M, i)[1], Soft(M, i)[2])
N(M) == Len(M)
LineOk(e) == e.ok = 1 /\
  LET M == e.M  E == e.E  D == DOMAIN e.M  id == e.id + 1
      d(i) == IF i = id THEN 1 ELSE 0
  IN /\ LseOk(M, E, e.lse)
     /\ LMax(M) # NegInf =>
        /\ \A i \in D : LnOk(M, E, i, e.ln[i], 1) /\ SoftOk(M, i, e.sm[i]) /\ TailOk(M, E, i, e.sm[i])
        /\ LnOk(M, E, id, e.sp, -1)
        /\ "ce" \in DOMAIN e => LnOk(M, E, id, e.ce, -1)
        /\ "glse" \in DOMAIN e =>
             /\ \A i \in D : SoftOk(M, i, e.glse[i]) /\ TailOk(M, E, i, e.glse[i])
             \* of the sum of the logarithms: one minus length times softmax
             /\ \A i \in D : IsRatio(e.gln[i], Soft(M, i)[2] - Len(M) * Soft(M, i)[1], Soft(M, i)[2])
             /\ \A i \in D : IsRatio(e.gsm[i], 0, 1)
             /\ \A i \in D : IsRatio(e.gsp[i], Soft(M, i)[1] - d(i) * Soft(M, i)[2], Soft(M, i)[2])
             /\ "ce" \in DOMAIN e =>
                  /\ \A i \in D : IsRatio(e.gce[i], Soft(M, i)[1] - d(i) * Soft(M, i)[2], Soft(M, i)[2])
                  /\ \A i \in D : LnOk(M, E, i, e.gct[i], -1)

(* A line of arguments B + v[i]/16 with a large common part B: what is told is told at scale
   2^14, lse without B.                                                                   *)
NearFix(x, want, t) == x >= want - t /\ x <= want + t
ShiftOk(e) == e.ok = 1 /\
  LET v == e.v  D == DOMAIN e.v  id == e.id + 1
      one(i) == IF i = id THEN FS ELSE 0
  IN /\ NearFix(e.lse, LseFix(v), 8 + e.B \div 256)
     /\ \A i \in D : NearFix(e.ln[i], v[i] * 1024 - LseFix(v), 8) /\ NearFix(e.sm[i], SoftFix(v, i), 8)
     /\ NearFix(e.sp, LseFix(v) - v[id] * 1024, 8)
     /\ NearFix(e.ce, LseFix(v) - v[id] * 1024, 8)
     /\ "glse" \in DOMAIN e =>
          /\ \A i \in D : NearFix(e.glse[i], SoftFix(v, i), 8)
          /\ \A i \in D : NearFix(e.gln[i], FS - Len(v) * SoftFix(v, i), 8 * (1 + Len(v)))
          /\ \A i \in D : NearFix(e.gsm[i], 0, 8)
          /\ \A i \in D : NearFix(e.gsp[i], SoftFix(v, i) - one(i), 8)
          /\ \A i \in D : NearFix(e.gce[i], SoftFix(v, i) - one(i), 8)
          /\ \A i \in D : NearFix(e.gct[i], LseFix(v) - v[i] * 1024, 8)
=============================================================================
