------------------------------- MODULE NpzTrace -------------------------------
(* Files, a configuration, and the rows a real data set served, in order. *)
EXTENDS Npz, Json, IOUtils, TLC
Cases == JsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES cid, l, err
tvars == <<cid, l, err>>
C == Cases[cid]
TInit == cid \in 1..Len(Cases) /\ l = 1 /\ err = ""
Mad == [i \in 1..Len(Cases) |-> Meaningless(Cases[i].files, Cases[i].config)]
Want == [i \in 1..Len(Cases) |-> IF Mad[i] THEN <<>> ELSE Samples(Cases[i].files, Len(Cases[i].files), Cases[i].config)]

Near(a, b) == a - b \in -2..2
NearSeq(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Near(a[i], b[i])
Grid(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : NearSeq(a[i], b[i])
RowErr(k) ==
  IF k > Len(Want[cid]) THEN "a row the filters do not select"
  ELSE LET s == Want[cid][k] g == C.rows[k] IN
  IF g.size # s.size THEN "the board size is wrong"
  ELSE IF g.board # s.board THEN "the board planes are wrong"
  ELSE IF ~NearSeq(g.side, s.side) THEN "the side to move is wrong"
  ELSE IF ~NearSeq(g.value, s.value) THEN "the value target is wrong"
  ELSE IF ~Grid(g.grid, s.grid) THEN "the policy target is wrong"
  ELSE IF ~Near(g.pass, s.pass) THEN "the pass entry is wrong"
  ELSE IF C.features /\ g.features # s.features THEN "the sparse features are wrong"
  ELSE ""
Step == /\ err = "" /\ l <= Len(C.rows) /\ l' = l + 1 /\ err' = RowErr(l) /\ UNCHANGED cid
End == /\ err = "" /\ l = Len(C.rows) + 1 /\ l' = l + 1
       /\ err' = IF Mad[cid] /\ ~C.refused THEN "a condition that means nothing was accepted"
                 ELSE IF C.refused /\ Len(Want[cid]) > 0 THEN "files with selected rows were refused" (* none selected may be refused *)
                 ELSE IF Len(C.rows) < Len(Want[cid]) THEN "selected rows are missing" ELSE ""
       /\ UNCHANGED cid
TNext == Step \/ End
Report == err # "" => PrintT("@@" \o ToJson([case |-> cid, step |-> l - 1, clause |-> err]))
=============================================================================
