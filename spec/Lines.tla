-------------------------------- MODULE Lines --------------------------------
(***************************************************************************)
(* The number of a line: what a point sees along a line through it.         *)
(*                                                                         *)
(* A window of odd length L around a point holds for each cell WALL 0 (off  *)
(* the board), SELF 1, OPPO 2 or EMPTY 3; the middle is never a wall.       *)
(* Boards are rows of cells 0 empty, 1 self, 2 oppo.  The raw number writes *)
(* the window in base 4, first cell last digit.  The compact number writes  *)
(* the stones in base 3, first cell first digit, above a border part that   *)
(* uses cells off the board and two digits above the rest.                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Pow3 == [i \in 0..19 |-> 3^i]
Pow4 == [i \in 0..15 |-> 4^i]
Half(L) == L \div 2
Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b
RECURSIVE Sum(_, _)
Sum(f, n) == IF n = 0 THEN 0 ELSE f[n] + Sum(f, n - 1)

(* ------------------------------------------------------------ what is seen *)
Dirs == <<<<1, 0>>, <<0, 1>>, <<1, -1>>, <<1, 1>>>>      (* x, y; seen from the back of it *)
Window(b, x, y, d, L) ==
  [i \in 1..L |-> LET xx == x + (i - 1 - Half(L)) * d[1] yy == y + (i - 1 - Half(L)) * d[2] IN
                  IF xx < 1 \/ xx > Len(b[1]) \/ yy < 1 \/ yy > Len(b) THEN 0 ELSE IF b[yy][xx] = 0 THEN 3 ELSE b[yy][xx]]

(* -------------------------------------------------------------- its number *)
Raw(win) == Sum([i \in 1..Len(win) |-> win[i] * Pow4[i - 1]], Len(win))

OnBoard(win, from, to) == Cardinality({i \in from..to : win[i] # 0})
Border(L, left, right) ==
  LET h == Half(L) ld == h - left rd == h - right
      ones(f) == Sum(f, Len(f))
      top(n) == [i \in 1..n |-> Pow3[L - i]]             (* the n first digits *)
      low(n) == [i \in 1..n |-> Pow3[i - 1]]             (* the n last digits *)
      rt == Min(ld, rd) lt == Min(ld, rd - 1) IN
  IF ld = 0 /\ rd = 0 THEN 0
  ELSE IF rd = 0 THEN 2 * Pow3[L] + ones(top(ld - 1))
  ELSE Pow3[L] + ones(low(rt)) + ones(low(Max(rt, rd - 1))) + ones(top(lt)) + ones(top(Max(lt, ld - 1)))
Compact(win) ==
  LET L == Len(win) h == Half(L) IN
  Border(L, OnBoard(win, 1, h), OnBoard(win, h + 2, L)) + Sum([i \in 1..L |-> IF win[i] \in {1, 2} THEN win[i] * Pow3[L - i] ELSE 0], L)

Number(win, raw) == IF raw THEN Raw(win) ELSE Compact(win)
Total(L) == 1 + 2 * Pow3[L] + Sum([i \in 1..(Half(L) + 1) |-> 2 * Pow3[i - 1]], Half(L) + 1)
            + Sum([i \in 1..L |-> IF i > Half(L) + 2 THEN Pow3[i - 1] ELSE 0], L)
Answers(h, w, L, raw) == L >= 1 /\ L % 2 = 1 /\ L <= (IF raw THEN 15 ELSE 17) /\ Max(h, w) <= 32 - Half(L)

(* --------------------------------------------------- facts about the numbers *)
Seen(L) == UNION {{[i \in 1..L |-> IF i <= Half(L) - l \/ i > Half(L) + 1 + r THEN 0 ELSE f[i]] :
                   f \in [(Half(L) + 1 - l)..(Half(L) + 1 + r) -> 1..3]} : l \in 0..Half(L), r \in 0..Half(L)}
RECURSIVE Spread(_)
Spread(n) == IF n < 0 THEN 0 ELSE Pow3[n] + Spread(n - 1)
HowMany(L) == 3 * Spread(Half(L)) * Spread(Half(L))
Reached(L) == {Compact(win) : win \in Seen(L)}
Reversed(win) == [i \in 1..Len(win) |-> win[Len(win) + 1 - i]]
Facts(L) ==
  LET seen == Seen(L) reached == {Compact(win) : win \in seen} top == Total(L) - 1 IN
  /\ Cardinality(seen) = HowMany(L)
  /\ Cardinality(reached) = HowMany(L)                      (* no two windows share a number *)
  /\ \A c \in reached : c \in 0..top
  /\ L > 1 => top \in reached
  /\ L <= 7 => LET raws == {Raw(win) : win \in seen} IN Cardinality(raws) = HowMany(L) /\ \A c \in raws : c \in 0..(4^L - 1)
=============================================================================
