------------------------------ MODULE LinesTrace ------------------------------
(* Numbers the real encoders gave to boards, to single lines and to lengths.  *)
EXTENDS Lines, Json, IOUtils, TLC
Cases == JsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES cid, l, err
tvars == <<cid, l, err>>
C == Cases[cid]
TInit == cid \in 1..Len(Cases) /\ l = 1 /\ err = ""
BoardErr ==
  LET b == C.board h == Len(b) w == Len(b[1]) IN
  IF C.refused # ~Answers(h, w, C.length, C.raw) THEN (IF C.refused THEN "an allowed length was refused" ELSE "lengths that cannot be numbered were accepted")
  ELSE IF C.refused THEN ""
  ELSE IF \E k \in 1..Len(C.got), y \in 1..h, x \in 1..w : C.got[k][y][x] # Number(Window(b, x, y, Dirs[k], C.length), C.raw) THEN "a point got the number of another line"
  ELSE ""
Set(s) == {s[i] : i \in 1..Len(s)}
LengthErr ==
  IF C.refused # ~Answers(1, 1, C.length, C.raw) THEN "an impossible length was accepted, or a possible one refused"
  ELSE IF C.refused THEN ""
  ELSE IF C.total # (IF C.raw THEN 4^C.length ELSE Total(C.length)) THEN "the number of numbers is wrong"
  ELSE IF C.flags = -1 THEN ""
  ELSE IF C.flags # HowMany(C.length) THEN "the usage flags do not mark as many numbers as there are lines"
  ELSE IF C.unmarked # <<>> THEN "a number in use is not marked as used"
  ELSE IF C.marked # <<>> /\ Set(C.marked) # Reached(C.length) THEN "the usage flags mark other numbers than those in use"
  ELSE ""
Step == err = "" /\ l = 1 /\ l' = 2 /\ err' = (IF C.kind = "board" THEN BoardErr ELSE LengthErr) /\ UNCHANGED cid
TNext == Step
Report == err # "" => PrintT("@@" \o ToJson([case |-> cid, step |-> l - 1, clause |-> err]))
=============================================================================
