------------------------------- MODULE MCRand -------------------------------
(* All short histories of draws and initialisations on one device, by an algorithm that obtains
   memory, asks the source for the draws of the whole tensor, and makes the tensor.
   Fill = "whole"; "sample": as many draws as one sample has; Source = "on" goes on with new draws,
   "again" starts anew; under the latter Whole and Fresh fail.                               *)
EXTENDS Rand, Json

CONSTANTS MaxLen, Sizes, Fill, Source
VARIABLES next, made, last, hist
vars == <<next, made, last, hist>>

Routes == [device |-> {"bernoulli", "normal", "uniform"}, init |-> {"constant", "normal", "uniform", "xavier"},
           param |-> {"constant", "normal", "uniform", "xavier"}]
Shapes == {[d |-> d, b |-> b] : d \in {<<>>, <<2>>, <<2, 3>>, <<2, 1, 2>>}, b \in Sizes}
One(i) == i % 2
Bound == [fan \in 2 .. 6 |-> CHOOSE b \in 1 .. 8200 : FanBound(b, 4, fan)]

Init == next = 0 /\ made = <<>> /\ last = [k |-> "begin"] /\ hist = <<>>
Draw == \E r \in DOMAIN Routes : \E dist \in Routes[r], s \in Shapes, pre \in IF r = "init" THEN {0, 1} ELSE {0}, fail \in {0, 1} :
  LET may == MayFill(r, dist, s, pre) /\ (fail = 0 \/ dist = Constant)
      n == IF Fill = "sample" THEN SizeOf([s EXCEPT !.b = 1]) ELSE SizeOf(s)
      from == IF Source = "again" THEN 0 ELSE next
      fan == Dim(s, 0) + Dim(s, 1)
      calls == IF dist = Constant THEN <<>>
               ELSE <<[dist |-> Kind(dist), n |-> n, from |-> from, p |-> IF dist = "xavier" THEN <<-5, 5>> ELSE <<7>>,
                       m |-> IF dist = "bernoulli" THEN [i \in 1 .. n |-> One(from + i)] ELSE <<>>]>>
      e == [k |-> "draw", route |-> r, dist |-> dist, want |-> s, s |-> s, pre |-> pre, fail |-> fail, p |-> <<7>>, from |-> from,
            s4 |-> 4, b12 |-> Bound[fan],
            ok |-> IF may THEN 1 ELSE 0, kept |-> 1, calls |-> IF may THEN calls ELSE <<>>,
            g |-> IF r = "param" THEN [i \in 1 .. SizeOf(s) |-> 0] ELSE <<>>,
            res |-> [i \in 1 .. n |-> CASE dist = Constant -> 7 [] dist = "bernoulli" -> One(from + i) [] OTHER -> from + i - 1]]
  IN /\ last' = e
     /\ next' = (IF may /\ dist # Constant THEN from + n ELSE next)
     /\ made' = (IF may /\ dist # Constant THEN Append(made, [from |-> from, n |-> n, want |-> SizeOf(s)]) ELSE made)
     /\ hist' = Append(hist, [route |-> r, dist |-> dist, d |-> s.d, b |-> s.b, pre |-> pre, fail |-> fail])
Next == Len(hist) < MaxLen /\ Draw
Spec == Init /\ [][Next]_vars
View == <<next, made, last.k, Len(hist)>>

\* no draw is used twice, and every element has one
Fresh == \A i, j \in DOMAIN made : i < j => made[i].from + made[i].n <= made[j].from
Whole == \A i \in DOMAIN made : made[i].n = made[i].want
Rules == [][DrawOk(last', next)]_vars
Rejected == [][last'.ok = 0 => UNCHANGED <<next, made>>]_vars
EmitStep == Len(hist') = MaxLen => PrintT("BEHAVIOUR " \o ToJson([ops |-> hist']))
=============================================================================
