-------------------------------- MODULE MCExt --------------------------------
(* Enumerates the tabulated arguments and the lines, checks the definitions against each
   other, and tells the cases for the real code.                                         *)
EXTENDS Extremes, TLC, Json

CONSTANTS Parts, Exps, Lens
PartsA == {-3, -1, 0, 1, 2}
VARIABLE c
vars == <<c>>
None == [k |-> "none"]

Init == c = None
Next == /\ c = None
        /\ \/ \E i \in DOMAIN Cases : c' = [k |-> "fun", i |-> i, f |-> Cases[i].f, p |-> Cases[i].k, x |-> Cases[i].x]
           \/ \E n \in Lens, E \in Exps : \E M \in [1 .. n -> Parts \cup {NegInf}] :
                LMax(M) # NegInf /\ c' = [k |-> "line", M |-> M, E |-> E]
           \/ \E n \in Lens : c' = [k |-> "line", M |-> [i \in 1 .. n |-> NegInf], E |-> 8]
           \/ \E n \in Lens, h \in {0, 4, 10, 17} : \E v \in [1 .. n -> {-40, -16, -1, 0, 7, 16}] :
                c' = [k |-> "shift", v |-> v, h |-> h]
Spec == Init /\ [][Next]_vars

Same(f, x) == {j \in DOMAIN Cases : Cases[j].f = f /\ Cases[j].x = x}
The(f, x) == Cases[CHOOSE j \in Same(f, x) : TRUE]
Negated == {"sin", "tan", "tanh"}
(* the tables agree with the laws of the functions *)
Laws ==
  c.k = "fun" =>
    LET t == Cases[c.i]
        m == Same(t.f, Minus(t.x))
    IN /\ t.f \in Negated /\ m # {} => The(t.f, Minus(t.x)).y = Minus(t.y)
       /\ t.f \in {"cos", "abs"} /\ m # {} => The(t.f, Minus(t.x)).y = t.y
       /\ t.f \in {"sigmoid", "tanh", "softplus"} /\ m # {} => 
             LET o == The(t.f, Minus(t.x)) IN
             \* sigmoid(x) + sigmoid(-x) = 1; equal slopes of sigmoid and tanh on both sides
             /\ t.f = "sigmoid" => Abs(SSteps(t.y, 25) + SSteps(o.y, 25) - 33554432) <= 4
             /\ t.f # "softplus" => o.g = t.g
       /\ t.f = "softplus" => t.g = The("sigmoid", t.x).y
       /\ t.f = "exp" => t.g = t.y
       /\ t.f \in {"exp", "sqrt", "sigmoid", "softplus", "abs"} => t.y[1] >= 0
       /\ t.f \in {"exp", "sigmoid"} /\ t.x = <<0, 0, 0>> => t.y \in {<<1, 8388608, -23>>, <<1, 8388608, -24>>}
(* softmax sums to one, and the largest has the logarithm minus ln of the ties *)
LineLaws ==
  c.k = "line" /\ LMax(c.M) # NegInf =>
    /\ NT(c.M) >= 1
    /\ \A i \in DOMAIN c.M : Soft(c.M, i)[1] = 1 <=> c.M[i] = LMax(c.M)
    \* each table of shares falls by the same factor, and by the number of ties
    /\ \A k \in 1 .. 4, n \in 1 .. 4 : LET a == Share[k][n]  b == Share[k + 1][n]
         IN b[3] - a[3] \in {-23, -24} /\ Dist(Share[k][1], <<1, Share[k][2][2], Share[k][2][3] + 1>>) <= 1
    /\ Cardinality({i \in DOMAIN c.M : Soft(c.M, i)[1] = 1}) = NT(c.M)
ShiftLaws ==
  c.k = "shift" =>
    /\ Abs(SumOf([i \in DOMAIN c.v |-> SoftFix(c.v, i)]) - FS) <= Len(c.v)
    /\ \A i \in DOMAIN c.v : Abs(LseFix([j \in DOMAIN c.v |-> c.v[j] + 16]) - LseFix(c.v) - 16384) <= 2
ASSUME \A n \in DOMAIN LnInt : Abs(LnInt[n] - 4 * LnFix(n * 16384)) <= 8
EmitStep == PrintT("BEHAVIOUR " \o ToJson(c'))
=============================================================================
