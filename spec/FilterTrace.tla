----------------------------- MODULE FilterTrace -----------------------------
(* Filters evaluated by the real code, against the language's meaning. *)
EXTENDS Filter, Json, IOUtils, TLC
Cases == JsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES cid, l, err
tvars == <<cid, l, err>>
C == Cases[cid]
TInit == cid \in 1..Len(Cases) /\ l = 1 /\ err = ""
(* an observation: [refused, rows, touched] for one expression over the case's columns *)
Judge(o) ==
  LET want == Kept(o.tree, C.columns, C.n) IN
  IF o.touched THEN "evaluating a filter changed the data"
  ELSE IF want.refused /\ ~o.refused THEN "an expression outside the language was evaluated"
  ELSE IF ~want.refused /\ o.refused THEN "an expression of the language was refused"
  ELSE IF ~want.refused /\ o.rows # want.rows THEN "the wrong rows are kept"
  ELSE ""
TNext == /\ err = "" /\ l <= Len(C.asked) /\ l' = l + 1 /\ err' = Judge(C.asked[l]) /\ UNCHANGED cid
Report == err # "" => PrintT("@@" \o ToJson([case |-> cid, step |-> l - 1, clause |-> err]))
=============================================================================
