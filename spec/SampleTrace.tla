----------------------------- MODULE SampleTrace -----------------------------
(***************************************************************************)
(* Rows shown by the real data path.  A case has records (what the files     *)
(* say), a setup (side convention, symmetry kind, padded size) and rows: the *)
(* records a row may be (cand), the run and epoch it came from, and what it  *)
(* shows (shown: a checksum of all of it).  Every row must be the image of one of its records under one       *)
(* allowed symmetry, board, policy, sparse features and moves alike.         *)
(*                                                                         *)
(* grids hold own + 2 * other stones; values and policies are millionths;   *)
(* pass is -1 where there is no pass entry; moves are <<x, y>>, pass         *)
(* <<-1, -1>>.                                                              *)
(***************************************************************************)
EXTENDS Symmetry, Json, IOUtils, TLC

Cases == JsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES cid, l, err, seen, used
tvars == <<cid, l, err, seen, used>>
C == Cases[cid]
S == C.setup
TInit == cid \in 1..Len(Cases) /\ l = 1 /\ err = "" /\ seen = <<>> /\ used = {}

Near6(a, b) == a - b \in -2..2
NearGrid(a, b) == Len(a) = Len(b) /\ \A y \in 1..Len(a) : Len(a[y]) = Len(b[y]) /\ \A x \in 1..Len(a[y]) : Near6(a[y][x], b[y][x])
Turned(r) == S.fixed /\ r.stm > 0
Swap(c) == CASE c = 1 -> 2 [] c = 2 -> 1 [] OTHER -> c
Sides(r) == IF Turned(r) THEN [y \in 1..Len(r.cells) |-> [x \in 1..Len(r.cells[y]) |-> Swap(r.cells[y][x])]] ELSE r.cells
Value(r) == IF Turned(r) THEN <<r.value[2], r.value[1]>> \o SubSeq(r.value, 3, Len(r.value)) ELSE r.value
Channels == <<5, 6, 7, 8, 1, 2, 3, 4, 10, 9, 12, 11>>
Features(r) == IF Turned(r) THEN [y \in 1..Len(r.sparse) |-> [x \in 1..Len(r.sparse[y]) |-> [c \in 1..12 |-> r.sparse[y][x][Channels[c]]]]]
               ELSE r.sparse

(* stored planes may be larger than the board (padding right and below) *)
H(r) == IF S.size # <<>> THEN S.size[1] ELSE Len(r.cells)
W(r) == IF S.size # <<>> THEN S.size[2] ELSE Len(r.cells[1])
Choices(r) == Allowed(r.h, r.w, S.kind)
Img(k, grid, r, pad) == Image(k, grid, r.h, r.w, H(r), W(r), pad)
NoFeatures == [c \in 1..12 |-> 0]

BoardBy(r, g, k) == g.cells = Img(k, Sides(r), r, 0)
PolicyBy(r, g, k) == NearGrid(g.policy, Img(k, r.policy, r, 0))
SparseBy(r, g, k) == g.sparse = (IF S.extra /\ r.sparse # <<>> THEN Img(k, Features(r), r, NoFeatures) ELSE <<>>)
MovesBy(r, g, k) == g.moves = (IF S.extra /\ r.moves # <<>>
                               THEN [i \in 1..Len(r.moves) |-> IF r.moves[i] = <<-1, -1>> THEN <<-1, -1>> ELSE Move(k, r.h, r.w, r.moves[i])] ELSE <<>>)
LastOk(g) == g.last = <<>> \/ g.last = (IF g.moves = <<>> THEN <<-1, -1>> ELSE g.moves[Len(g.moves)])
Plain(r, g) == /\ g.stm = r.stm /\ g.size = <<r.h, r.w>>
               /\ Len(g.value) = Len(r.value) /\ \A i \in 1..Len(r.value) : Near6(g.value[i], Value(r)[i])
               /\ (g.pass = -1) = (r.pass = -1) /\ Near6(g.pass, r.pass)
Full(r, g, k) == BoardBy(r, g, k) /\ PolicyBy(r, g, k) /\ SparseBy(r, g, k) /\ MovesBy(r, g, k)

Row == C.rows[l]
(* pairs <<record, symmetry>> that explain the row *)
Explained == {p \in {<<i, k>> : i \in {Row.cand[j] : j \in 1..Len(Row.cand)}, k \in 0..7} :
                LET r == C.records[p[1]] IN p[2] \in (IF Row.given >= 0 THEN {Row.given} ELSE Choices(r)) /\ Plain(r, Row.got) /\ Full(r, Row.got, p[2])}

RowErr ==
  IF Row.refused THEN (IF S.refusable THEN "" ELSE "a sample was refused")
  ELSE IF S.refusable THEN "a symmetry that changes the shape of the board was accepted"
  ELSE IF Len(Row.cand) = 0 THEN "a row is no image of any record"
  ELSE IF Explained # {} THEN
    (IF Row.mutated THEN "preparing a sample changed the stored data"
     ELSE IF ~LastOk(Row.got) THEN "the last move is not the last of the moves shown"
     ELSE IF \E i \in 1..Len(seen) : seen[i].rec = Row.cand /\ seen[i].epoch = Row.epoch /\ Len(Row.cand) = 1 /\ S.stable
                 /\ seen[i].shown # Row.shown
          THEN "the same record of the same epoch is shown under two symmetries"
     ELSE "")
  ELSE LET r == C.records[Row.cand[1]] g == Row.got IN
    IF ~(\E k \in Choices(r) : BoardBy(r, g, k)) THEN "the board shown is no allowed image of the record"
    ELSE IF ~Plain(r, g) THEN "side, value, size or pass entry do not follow the convention"
    ELSE IF ~(\E k \in Choices(r) : BoardBy(r, g, k) /\ PolicyBy(r, g, k)) THEN "board and policy are not under the same symmetry"
    ELSE IF Row.given >= 0 /\ ~BoardBy(r, g, Row.given) THEN "another symmetry than the one asked for"
    ELSE "features or moves are not under the symmetry of the board"

Step ==
  /\ err = "" /\ l <= Len(C.rows)
  /\ l' = l + 1
  /\ err' = RowErr
  /\ seen' = IF err' = "" /\ ~Row.refused THEN Append(seen, [rec |-> Row.cand, epoch |-> Row.epoch, shown |-> Row.shown]) ELSE seen
  /\ used' = IF err' = "" /\ ~Row.refused /\ Cardinality(Explained) = 1 THEN used \cup {p[2] : p \in Explained} ELSE used
  /\ UNCHANGED cid

(* over many rows no allowed symmetry stays unused; a record changes its symmetry from epoch to epoch *)
Vary ==
  /\ err = "" /\ l = Len(C.rows) + 1
  /\ l' = l + 1
  /\ err' = IF ~S.varied THEN ""
            ELSE IF UNION {Allowed(C.records[i].h, C.records[i].w, S.kind) : i \in 1..Len(C.records)} # used THEN "an allowed symmetry is never used"
            ELSE IF \E i, j \in 1..Len(seen) : seen[i].epoch < 1000 /\ seen[j].epoch < 1000 /\ seen[i].rec = seen[j].rec /\ seen[i].epoch # seen[j].epoch /\ seen[i].shown # seen[j].shown THEN ""
            ELSE "every epoch shows the same symmetries"
  /\ UNCHANGED <<cid, seen, used>>
TNext == Step \/ Vary
Report == err # "" => PrintT("@@" \o ToJson([case |-> cid, step |-> l - 1, clause |-> err]))
=============================================================================
