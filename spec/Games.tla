-------------------------------- MODULE Games --------------------------------
(***************************************************************************)
(* What the two binary game formats mean.  A file is a sequence of 16-bit   *)
(* words, little end first; packed bit fields fill a word from its low end. *)
(*                                                                         *)
(* simple   result:2 ply:9 size:5 | rule:3 move:13 | ply words, a move each *)
(*          one sample per entry: the position, and the move to find        *)
(* packed   size:5 rule:3 result:4 totalPly:10 initPly:10 | tag:14 count:18 *)
(*          | initPly words, a move each | count records                    *)
(*            first:1 last:1 noEval:1 pass:1 -:2 move:10 | eval (signed)    *)
(*          the records from a first to a last are the candidates of one    *)
(*          turn, best first; one sample per turn; the best one is played   *)
(* A move is x * 32 + y.  result: 0 loss, 1 draw, 2 win of the side to move *)
(* (simple: at the position; packed: at the first turn).  rule: 0           *)
(* freestyle, 1 standard, 4 renju.  Black moves first; stm -1 is black.     *)
(*                                                                         *)
(* Fractions are in ten-thousandths.                                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

One == 10000
Unknown == 99999 (* no evaluation *)
Bits(w, lo, n) == (w \div 2^lo) % (2^n)
Word(ws, i) == ws[i]
Point(w) == <<Bits(w, 5, 5), Bits(w, 0, 5)>>
Pass == <<-1, -1>>
Signed(w) == IF w >= 32768 THEN w - 65536 ELSE w

Side(ply) == IF ply % 2 = 0 THEN -1 ELSE 1

(* cells of a position: 1 the side to move, 2 the other *)
Board(size, moves) ==
  LET n == Len(moves) IN
  [y \in 1..size |-> [x \in 1..size |->
    LET last == {i \in 1..n : moves[i] = <<x - 1, y - 1>>} IN
    IF last = {} THEN 0 ELSE IF (n - (CHOOSE i \in last : TRUE)) % 2 = 1 THEN 1 ELSE 2]]
(* moves alternate, black first: the mover of move i is the side to move at the end iff n - i + 1 is even *)

Outcome(r) == <<IF r = 2 THEN One ELSE 0, IF r = 0 THEN One ELSE 0, IF r = 1 THEN One ELSE 0>>
OneHot(size, p) == [y \in 1..size |-> [x \in 1..size |-> IF p = <<x - 1, y - 1>> THEN One ELSE 0]]

(* ------------------------------------------------------------- simple *)
SimpleLength(ws, i) == 2 + Bits(ws[i], 2, 9)
SimpleSample(ws, i) ==
  LET ply == Bits(ws[i], 2, 9) size == Bits(ws[i], 11, 5)
      moves == [k \in 1..ply |-> Point(ws[i + 1 + k])] IN
  [rule |-> Bits(ws[i + 1], 0, 3), hw |-> size, moves |-> moves, ply |-> ply, stm |-> Side(ply), cells |-> Board(size, moves),
   value |-> Outcome(Bits(ws[i], 0, 2)), policy |-> OneHot(size, Point(Bits(ws[i + 1], 3, 13))), pass |-> 0, eval |-> Unknown]

RECURSIVE SimpleFrom(_, _)
SimpleFrom(ws, i) == IF i > Len(ws) THEN <<>> ELSE <<SimpleSample(ws, i)>> \o SimpleFrom(ws, i + SimpleLength(ws, i))

(* ------------------------------------------------------------- packed *)
InitPly(ws, i) == ws[i + 1] \div 64
Count(ws, i) == (ws[i + 2] \div 16384) + ws[i + 3] * 4
PackedLength(ws, i) == 4 + InitPly(ws, i) + 2 * Count(ws, i)

Cand(ws, j) == [move |-> IF Bits(ws[j], 3, 1) = 1 THEN Pass ELSE Point(Bits(ws[j], 6, 10)),
                eval |-> IF Bits(ws[j], 2, 1) = 1 THEN Unknown ELSE Signed(ws[j + 1]),
                first |-> Bits(ws[j], 0, 1) = 1, last |-> Bits(ws[j], 1, 1) = 1]
RECURSIVE Turns(_, _, _, _)
(* the turns of records k..n at words from j; open: the last turn can still grow *)
Turns(ws, j, left, acc) ==
  IF left = 0 THEN acc.turns
  ELSE LET c == Cand(ws, j) t == acc.turns IN
    Turns(ws, j + 2, left - 1,
      [turns |-> IF acc.open THEN [t EXCEPT ![Len(t)] = Append(@, c)] ELSE Append(t, <<c>>), open |-> ~c.last])

Lookup(table, e) == LET i == CHOOSE i \in 1..Len(table) : table[i][1] = e IN table[i][2]
Max0(a) == IF a < 0 THEN 0 ELSE a
(* o: lambda (ten-thousandths), dynamic, mate, matemulti, temperature0, passmove; win: table of winrates; soft: weights of each turn *)
PackedValue(o, win, res, best, k, turns) ==
  IF o.lambda = 0 \/ best.eval = Unknown THEN Outcome(res)
  ELSE LET w == Lookup(win, best.eval) u == Lookup(win, -best.eval)
           td == IF ~o.dynamic THEN o.lambda ELSE IF turns = 1 THEN o.lambda ELSE (o.lambda * (turns - 1 - k)) \div (turns - 1)
           wld == <<w, u, Max0(One - w - u)>> IN
       [n \in 1..3 |-> (Outcome(res)[n] * (One - td) + wld[n] * td) \div One]
Many(o, turn) == /\ Len(turn) > 1 /\ ~o.temperature0
                 /\ \A n \in 1..Len(turn) : turn[n].eval # Unknown
                 /\ o.matemulti \/ turn[1].eval < o.mate
PackedPolicy(o, soft, size, turn) ==
  IF ~Many(o, turn) THEN [grid |-> OneHot(size, turn[1].move), pass |-> IF turn[1].move = Pass THEN One ELSE 0]
  ELSE [grid |-> [y \in 1..size |-> [x \in 1..size |->
                    LET at == {n \in 1..Len(turn) : turn[n].move = <<x - 1, y - 1>>} IN IF at = {} THEN 0 ELSE soft[CHOOSE n \in at : TRUE]]],
        pass |-> LET at == {n \in 1..Len(turn) : turn[n].move = Pass} IN IF at = {} THEN 0 ELSE soft[CHOOSE n \in at : TRUE]]

PackedGame(o, win, soft, ws, i) ==
  LET size == Bits(ws[i], 0, 5) res == Bits(ws[i], 8, 4) ip == InitPly(ws, i)
      init == [k \in 1..ip |-> Point(ws[i + 3 + k])]
      turns == Turns(ws, i + 4 + ip, Count(ws, i), [turns |-> <<>>, open |-> FALSE])
      Played(k) == init \o [n \in 1..(k - 1) |-> turns[n][1].move] IN
  [k \in 1..Len(turns) |->
     LET moves == Played(k) p == PackedPolicy(o, soft[k], size, turns[k]) IN
     [rule |-> Bits(ws[i], 5, 3), hw |-> size, moves |-> moves, ply |-> ip + k - 1, stm |-> Side(ip + k - 1), cells |-> Board(size, moves),
      value |-> PackedValue(o, win, IF k % 2 = 1 THEN res ELSE 2 - res, turns[k][1], k - 1, Len(turns)),
      policy |-> p.grid, pass |-> p.pass, eval |-> turns[k][1].eval]]

RECURSIVE PackedFrom(_, _, _, _, _, _)
PackedFrom(o, win, soft, ws, i, n) ==
  IF i > Len(ws) THEN <<>> ELSE PackedGame(o, win, soft[n], ws, i) \o PackedFrom(o, win, soft, ws, i + PackedLength(ws, i), n + 1)

Rules == [freestyle |-> 0, standard |-> 1, renju |-> 4]
RuleIndex(r) == CASE r = 0 -> 0 [] r = 1 -> 1 [] r = 4 -> 2
=============================================================================
