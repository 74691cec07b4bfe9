----------------------------- MODULE TraceDeep ------------------------------
(* C22: big graphs.  Each program of a family is a linear form of its parameters; the
   specification folds over the program's steps to get it, counts its operations, and
   says what every request must run and return.                                    *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, IOUtils, Json

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l
vars == <<l>>

Steps(n) == [k \in 1 .. n |-> k]
\* element r of parameter p
Elem(e, r) == e.x[1] + ((r - 1) % 7)

\* linear forms: <<coefficient of parameter 1, of parameter 2, constant>>
LAdd(f, g) == <<f[1] + g[1], f[2] + g[2], f[3] + g[3]>>
LSub(f, g) == <<f[1] - g[1], f[2] - g[2], f[3] - g[3]>>
Chain(n) == FoldLeft(LAMBDA f, k : CASE k % 4 = 1 -> LAdd(f, <<0, 0, 1>>)
                                     [] k % 4 = 2 -> LSub(<<0, 0, 0>>, f)
                                     [] k % 4 = 3 -> LAdd(f, <<0, 0, -2>>)
                                     [] OTHER -> LAdd(f, <<0, 0, 3>>), <<1, 0, 0>>, Steps(n))
Double(n) == FoldLeft(LAMBDA f, k : LSub(LAdd(f, f), f), <<1, 0, 0>>, Steps(n))
Fib(n) == FoldLeft(LAMBDA p, k : <<p[2], LSub(p[2], p[1])>>, <<<<1, 0, 0>>, <<0, 1, 0>>>>, Steps(n))[2]
FanCoef(k) == IF (k - 1) % 3 = 0 THEN -1 ELSE 1
Fan(n) == FoldLeft(LAMBDA f, k : LAdd(f, <<FanCoef(k), 0, FanCoef(k) * (((k - 1) % 5) - 2)>>), <<0, 0, 0>>, Steps(n))
Concat(n) == FoldLeft(LAMBDA f, k : LAdd(f, <<((k - 1) % 3) - 1, 0, 0>>), <<0, 0, 0>>, Steps(n))
Lattice(n) == LET row(i) == (i + n) % 5
              IN <<3, 0, row(1) + row(2) + row(3) + row(4) - row(0)>>
Form(e) == CASE e.fam = "chain" -> Chain(e.n)
             [] e.fam = "double" -> Double(e.n)
             [] e.fam = "skip" -> <<1, 0, 0>>         \* y(k) = y(k-1) - y(k/2) + y(k/2)
             [] e.fam = "wide" -> <<1, 0, 0>>         \* y(k) = y(k-1) + x - x, among others
             [] e.fam = "fib" -> Fib(e.n)
             [] e.fam = "fan" -> Fan(e.n)
             [] e.fam = "concat" -> Concat(e.n)
             [] e.fam = "lattice" -> Lattice(e.n)
\* split: coefficient of row r; y starts as the last row, then y = row - y for rows 1, 4, 7 ...
SplitCoefs(n) ==
  LET m == (n + 2) \div 3
      last(r) == IF r = n THEN (IF m % 2 = 0 THEN 1 ELSE -1) ELSE 0
      used(r) == IF (r - 1) % 3 = 0 THEN (IF (m - ((r + 2) \div 3)) % 2 = 0 THEN 1 ELSE -1) ELSE 0
  IN [r \in 1 .. n |-> last(r) + used(r)]

Derivative(e) ==
  IF e.fam = "split" THEN <<SplitCoefs(e.n)>>
  ELSE LET f == Form(e) IN IF Len(e.x) = 2 THEN <<<<f[1]>>, <<f[2]>>>> ELSE <<<<f[1]>>>>
Value(e) ==
  IF e.fam = "split" THEN LET c == TLCEval(SplitCoefs(e.n)) IN FoldLeft(LAMBDA a, r : a + c[r] * Elem(e, r), 0, Steps(e.n))
  ELSE LET f == Form(e) IN f[1] * e.x[1] + (IF Len(e.x) = 2 THEN f[2] * e.x[2] ELSE 0) + f[3]

\* probed operations of the program (the fan's sum is always probed)
Count(e) ==
  CASE e.fam = "fan" -> IF e.probed = 1 THEN e.n + 1 ELSE 1
    [] e.probed = 0 -> 0
    [] e.fam = "chain" -> e.n + 1
    [] e.fam \in {"double", "skip"} -> 2 * e.n + 1
    [] e.fam \in {"fib", "wide"} -> e.n + 2
    [] e.fam = "concat" -> e.n
    [] e.fam = "split" -> 1 + (e.n + 2) \div 3
    [] e.fam = "lattice" -> 10 * e.n + 10
\* families whose operations can only run in creation order (or its reverse)
Strict == {"chain", "double", "skip"}

Ran(e) == [k \in 1 .. Len(e.st) |-> e.st[k].fw[1]]
RanBefore(e, k) == FoldLeft(LAMBDA a, j : a + Ran(e)[j], 0, Steps(k - 1))
Backs(e, k) == Len(SelectSeq(SubSeq(e.st, 1, k), LAMBDA s : s.r = "back"))
StepOk(e, k, cnt, val, der) ==
  LET s == e.st[k] IN
  /\ s.fw[1] = s.fw[2] /\ s.bw[1] = s.bw[2]                     \* nothing twice
  /\ e.fam \in Strict => s.fw[3] = 0 /\ s.bw[4] = 0
  /\ CASE s.r = "build" -> s.fw[1] = 0 /\ s.ids = cnt
       [] s.r = "mid"   -> RanBefore(e, k) + s.fw[1] <= cnt
       [] OTHER         -> RanBefore(e, k) + s.fw[1] = cnt
  /\ s.bw[1] = IF s.r = "back" THEN cnt ELSE 0
  /\ s.r = "get" => s.y = <<val>>
  /\ s.r # "build" => /\ Len(s.g) = Len(der)
                      /\ LET m == Backs(e, k)
                         IN \A p \in 1 .. Len(der) :
                              /\ Len(s.g[p]) = Len(der[p])
                              /\ \A r \in 1 .. Len(der[p]) : s.g[p][r] = 10 + m * der[p][r]
EventOk(e) ==
  LET cnt == Count(e)
      val == TLCEval(Value(e))
      der == TLCEval(Derivative(e))
  IN /\ e.ok = 1
     /\ Len(e.st) = Len(e.reqs) + 1
     /\ \A k \in 1 .. Len(e.st) : StepOk(e, k, cnt, val, der)

Init == l = 0
Next == l < Len(Trace) /\ l' = l + 1
Spec == Init /\ [][Next]_vars
Conforms == l = 0 \/ EventOk(Trace[l]) \/ (PrintT(<<"REJECT", l>>) /\ TLCSet(1, 1))
Accepted == TLCGet("stats").diameter - 1 = Len(Trace) /\ TLCGet(1) = 0
ASSUME TLCSet(1, 0)
=============================================================================
