------------------------------- MODULE Resume -------------------------------
(* Copies of a model, saved and loaded, trained apart.

   A copy is what has been done to it: a base and the actions since.  Loading takes over what
   had been done to the saved copy.  The guarantee is that the content of a copy is a function
   of what was done to it, no matter on which copy, device or side of a save it was done.   *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC

\* one parameter with a statistic and an optimizer, in arithmetic modulo M
M == 7
Fresh == [v |-> 3, g |-> 0, m |-> -1, t |-> 0]
Can(x, a) == a # "step" \/ x.m >= 0
Do(x, a) ==
  CASE a = "back:1" -> [x EXCEPT !.g = (@ + x.v * x.v) % M]
    [] a = "back:2" -> [x EXCEPT !.g = (@ + 2 * x.v + 1) % M]
    [] a = "conf" -> IF x.m >= 0 THEN x ELSE [x EXCEPT !.m = 0]
    [] a = "step" -> IF x.m < 0 THEN x
                     ELSE LET m == (2 * x.m + x.g * (x.t + 1)) % M
                          IN [v |-> (x.v + M - m) % M, g |-> 0, m |-> m, t |-> x.t + 1]
Acts == {"back:1", "back:2", "conf", "step"}
=============================================================================
