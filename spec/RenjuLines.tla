------------------------------ MODULE RenjuLines ------------------------------
(***************************************************************************)
(* Every line of 2K+1 points around an empty middle.                        *)
(***************************************************************************)
EXTENDS Renju, Json, IOUtils, TLC
CONSTANT K
(* numbered in base 3 *)
Digit(n, k) == (n \div 3^(k - 1)) % 3
Line(n) == <<[x \in 1..(2 * K + 1) |-> IF x = K + 1 THEN 0 ELSE Digit(n, IF x > K THEN x - 1 ELSE x)]>>
Lines == [n \in 1..(3^(2 * K)) |-> IF Forbidden(Line(n - 1), {}, <<K + 1, 1>>) THEN 1 ELSE 0]

(* facts about the rules themselves, over all lines *)
LineFacts == \A n \in 0..(3^(2 * K) - 1) :
   LET b == Line(n) p == <<K + 1, 1>> d == <<1, 0>> Y == {p} IN
     /\ MakesFive(b, {}, p) => ~Forbidden(b, {}, p)
     /\ Fours(b, Y, p, d) \in 0..2
     /\ Straight(b, Y, p, d) => Fours(b, Y, p, d) = 1 /\ ~Three(b, Y, p, d)
     /\ Forbidden(b, {}, p) <=> ~MakesFive(b, {}, p) /\ (MakesOverline(b, {}, p) \/ Fours(b, Y, p, d) = 2)
Answers == <<Lines, LineFacts>>
=============================================================================
