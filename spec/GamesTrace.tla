------------------------------ MODULE GamesTrace ------------------------------
(***************************************************************************)
(* Files of games and the rows the real readers served from them, in order. *)
(* Rules and board sizes that were not asked for are skipped.               *)
(***************************************************************************)
EXTENDS Games, Json, IOUtils, TLC

Cases == JsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES cid, l, err
tvars == <<cid, l, err>>
C == Cases[cid]
TInit == cid \in 1..Len(Cases) /\ l = 1 /\ err = ""

All(c) == IF c.format = "simple" THEN SimpleFrom(c.words, 1) ELSE PackedFrom(c.options, c.win, c.soft, c.words, 1, 1)
Wanted(c) == SelectSeq(All(c), LAMBDA s : s.hw \in {c.sizes[i] : i \in 1..Len(c.sizes)} /\ s.rule \in {Rules[c.rules[i]] : i \in 1..Len(c.rules)})
(* computed once per case *)
Samples == [i \in 1..Len(Cases) |-> Wanted(Cases[i])]

(* with a fixed side the first plane is black's and the first value black's winning *)
Turned(s) == [s EXCEPT !.cells = [y \in 1..Len(@) |-> [x \in 1..Len(@) |-> IF @[y][x] = 0 THEN 0 ELSE 3 - @[y][x]]],
                       !.value = <<@[2], @[1], @[3]>>]
Shown(s) == IF C.fixed /\ s.stm = 1 THEN Turned(s) ELSE s

Near(a, b) == a - b \in -4..4
NearSeq(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Near(a[i], b[i])
Grid(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : NearSeq(a[i], b[i])

RowErr(k) ==
  IF k > Len(Samples[cid]) THEN "a row that is not in the file"
  ELSE LET s == Shown(Samples[cid][k]) g == C.rows[k] IN
  IF g.hw # <<s.hw, s.hw>> THEN "another board size than the entry's"
  ELSE IF g.cells # s.cells THEN "the board is not the position after the moves"
  ELSE IF g.stm # s.stm THEN "the side to move is wrong"
  ELSE IF ~NearSeq(g.value, s.value) THEN "the value target is wrong"
  ELSE IF ~Grid(g.policy, s.policy) THEN "the policy target is wrong"
  ELSE IF C.options.passmove /\ ~Near(g.pass, s.pass) THEN "the pass entry is wrong"
  ELSE IF ~C.options.passmove /\ g.pass # -1 THEN "a pass entry nobody asked for"
  ELSE IF C.extra /\ (g.moves # s.moves \/ g.ply # s.ply) THEN "the moves shown are not those of the entry"
  ELSE IF C.extra /\ g.rule # RuleIndex(s.rule) THEN "the rule shown is not the entry's"
  ELSE IF C.extra /\ C.format = "packed" /\ g.eval # s.eval THEN "the evaluation shown is not that of the move"
  ELSE ""

Step == /\ err = "" /\ l <= Len(C.rows) /\ l' = l + 1 /\ err' = RowErr(l) /\ UNCHANGED cid
End == /\ err = "" /\ l = Len(C.rows) + 1 /\ l' = l + 1
       /\ err' = IF Len(C.rows) < Len(Samples[cid]) THEN "samples of the file are missing" ELSE ""
       /\ UNCHANGED cid
TNext == Step \/ End
Report == err # "" => PrintT("@@" \o ToJson([case |-> cid, step |-> l - 1, clause |-> err]))
=============================================================================
