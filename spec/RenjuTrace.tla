------------------------------ MODULE RenjuTrace ------------------------------
(***************************************************************************)
(* Maps of forbidden points from the real pipeline.  A case has planes      *)
(* <<first, second>>, fixed (the first plane is always black's), stm (the   *)
(* recorded side to move, negative for black), size (the board: the planes   *)
(* beyond it are padding), map (what came out) or refused.  One step per row.                                              *)
(***************************************************************************)
EXTENDS Renju, Json, IOUtils, TLC

Cases == JsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES cid, l, err
tvars == <<cid, l, err>>
C == Cases[cid]
TInit == cid \in 1..Len(Cases) /\ l = 1 /\ err = ""

BlackPlane == IF C.fixed \/ C.stm < 0 THEN 1 ELSE 2
H == C.size[1]
Wd == C.size[2]
PlaneH == Len(C.planes[1])
PlaneW == Len(C.planes[1][1])
TheBoard == [y \in 1..H |-> [x \in 1..Wd |-> IF C.planes[BlackPlane][y][x] # 0 THEN 1 ELSE IF C.planes[3 - BlackPlane][y][x] # 0 THEN 2 ELSE 0]]
Big == H > 22 \/ Wd > 22

RowErr(y) ==
  IF C.refused THEN IF Big THEN "" ELSE "a board was refused"
  ELSE IF Big THEN "a board beyond the supported size was accepted"
  ELSE IF Len(C.map) # PlaneH \/ Len(C.map[y]) # PlaneW THEN "the map has another shape than the planes"
  ELSE IF y > H THEN IF \E x \in 1..PlaneW : C.map[y][x] # 0 THEN "a point of the padding is marked" ELSE ""
  ELSE LET b == TheBoard
           want == [x \in 1..Wd |-> IF Forbidden(b, {}, <<x, y>>) THEN 1 ELSE 0] IN
       IF \E x \in (Wd + 1)..PlaneW : C.map[y][x] # 0 THEN "a point of the padding is marked"
       ELSE IF \E x \in 1..Wd : want[x] = 1 /\ C.map[y][x] # 1 THEN "a forbidden point is not marked"
       ELSE IF \E x \in 1..Wd : want[x] = 0 /\ C.map[y][x] # 0 THEN "an allowed point is marked forbidden"
       ELSE ""

Rows == IF C.refused THEN 1 ELSE PlaneH
Step == /\ err = "" /\ l <= Rows /\ l' = l + 1 /\ err' = RowErr(l) /\ UNCHANGED cid
TNext == Step
Report == err # "" => PrintT("@@" \o ToJson([case |-> cid, step |-> l - 1, clause |-> err]))
=============================================================================
