-------------------------------- MODULE Renju --------------------------------
(***************************************************************************)
(* Which points are forbidden to black under the rules of Renju.            *)
(*                                                                         *)
(* A board is a sequence of rows of cells: 0 empty, 1 black, 2 white.       *)
(* X is a set of further black stones <<x, y>> (imagined moves).            *)
(*   five       exactly five black stones in a row                         *)
(*   overline   six or more                                                 *)
(*   four       a row to which one more stone makes a five                  *)
(*   straight four   four stones in a row with a five on either end         *)
(*   three      a row to which one more stone, not itself forbidden and     *)
(*              not making a five, makes a straight four                    *)
(* A black move that makes no five is forbidden when it makes an overline,  *)
(* two fours or two threes (each containing the move).                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Dirs == {<<1, 0>>, <<0, 1>>, <<1, 1>>, <<1, -1>>}

Inside(b, p) == p[2] \in 1..Len(b) /\ p[1] \in 1..Len(b[1])
Black(b, X, p) == Inside(b, p) /\ (b[p[2]][p[1]] = 1 \/ p \in X)
Empty(b, X, p) == Inside(b, p) /\ b[p[2]][p[1]] = 0 /\ p \notin X
At(p, d, k) == <<p[1] + k * d[1], p[2] + k * d[2]>>
Neg(d) == <<-d[1], -d[2]>>

RECURSIVE Ray(_, _, _, _, _)
(* stones in a row from p (not counted) in direction d, at most five *)
Ray(b, X, p, d, k) == IF k > 5 \/ ~Black(b, X, At(p, d, k)) THEN k - 1 ELSE Ray(b, X, p, d, k + 1)
Row(b, X, p, d) == 1 + Ray(b, X, p, d, 1) + Ray(b, X, p, Neg(d), 1)

MakesFive(b, X, p) == \E d \in Dirs : Row(b, X, p, d) = 5
MakesOverline(b, X, p) == \E d \in Dirs : Row(b, X, p, d) > 5

(* the first empty points on the line, if any, before and after the row of stones around p *)
Ends(b, X, p, d) == {q \in {At(p, d, Ray(b, X, p, d, 1) + 1), At(p, Neg(d), Ray(b, X, p, Neg(d), 1) + 1)} : Empty(b, X, q)}

(* with p played (in X): the points that make a five in line d with p *)
Fives(b, X, p, d) == {q \in Ends(b, X, p, d) : Row(b, X, q, d) = 5}
Straight(b, X, p, d) == Row(b, X, p, d) = 4 /\ Cardinality(Fives(b, X, p, d)) = 2
Fours(b, X, p, d) == IF Straight(b, X, p, d) THEN 1 ELSE Cardinality(Fives(b, X, p, d))

RECURSIVE Forbidden(_, _, _), Three(_, _, _, _)
Three(b, X, p, d) ==
  \E q \in Ends(b, X, p, d) :
     /\ Straight(b, X \cup {q}, q, d)
     /\ ~MakesFive(b, X, q)
     /\ ~Forbidden(b, X, q)

SumDirs(f(_)) == f(<<1, 0>>) + f(<<0, 1>>) + f(<<1, 1>>) + f(<<1, -1>>)

Forbidden(b, X, p) ==
  /\ Empty(b, X, p)
  /\ ~MakesFive(b, X, p)
  /\ \/ MakesOverline(b, X, p)
     \/ LET Y == X \cup {p} F(d) == Fours(b, Y, p, d) IN SumDirs(F) >= 2
     \/ LET Y == X \cup {p} T(d) == IF Three(b, Y, p, d) THEN 1 ELSE 0 IN SumDirs(T) >= 2

ForbiddenMap(b) == [y \in 1..Len(b) |-> [x \in 1..Len(b[1]) |-> IF Forbidden(b, {}, <<x, y>>) THEN 1 ELSE 0]]
=============================================================================
