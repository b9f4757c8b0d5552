------------------------- MODULE PlanTransactionTrace -------------------------
(***************************************************************************)
(* Recorded training-loop histories over real streaming datasets, replayed *)
(* on PlanTransaction.  A case has                                         *)
(*   ref     the batches of an uninterrupted run, in order; each is        *)
(*           [rows, real, last, epoch, index, stamp]                       *)
(*   events  next (with the batch), commit (n), rollback, save, load,      *)
(*           refuse (a commit of something else: did it raise?),           *)
(*           restart (a load of a foreign state: did it raise?)            *)
(***************************************************************************)
EXTENDS PlanTransaction, SequencesExt, Json, IOUtils, TLC

Cases == JsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES cid, l, err
tvars == <<avars, cid, l, err>>

C == Cases[cid]
E == C.events[l]

TInit == AInit /\ cid \in 1..Len(Cases) /\ l = 1 /\ err = ""

Same(a, b) == a.rows = b.rows /\ a.real = b.real /\ a.stamp = b.stamp

BatchErr(g, b) ==
  IF g > Len(C.ref) THEN "more batches than an uninterrupted run delivers"
  ELSE LET r == C.ref[g] IN
  IF ~Same(r, b)
  THEN IF \E k \in 1..(g - 1) : Same(C.ref[k], b) THEN "a batch is delivered again after it was consumed"
       ELSE IF \E k \in (g + 1)..Len(C.ref) : Same(C.ref[k], b) THEN "batches were skipped"
       ELSE "a batch differs from the uninterrupted run"
  ELSE IF r.last # b.last THEN "the end of the epoch is marked on another batch"
  ELSE IF r.epoch # b.epoch \/ r.index # b.index THEN "a batch carries another epoch or position"
  ELSE ""

EpochOk(g, e) == IF g = 0 THEN e = C.ref[1].epoch
                 ELSE e = C.ref[g].epoch \/ (C.ref[g].last /\ e = C.ref[g].epoch + 1)

Step ==
  /\ err = "" /\ l <= Len(C.events)
  /\ l' = l + 1
  /\ CASE E.op = "next" ->
            /\ given' = given + 1 /\ UNCHANGED <<com, saved>>
            /\ err' = IF E.raised # "" THEN "fetching the next batch failed" ELSE BatchErr(given + 1, E.batch)
       [] E.op = "commit" ->
            /\ com' = com + E.n /\ UNCHANGED <<given, saved>>
            /\ err' = IF E.n > given - com THEN "harness commit"
                      ELSE IF E.raised # "" THEN "committing consumed batches in order was refused"
                      ELSE IF ~EpochOk(com + E.n, E.epoch) THEN "the committed epoch is wrong" ELSE ""
       [] E.op = "rollback" ->
            /\ given' = com /\ UNCHANGED <<com, saved>>
            /\ err' = IF E.raised # "" THEN "taking back uncommitted batches failed" ELSE ""
       [] E.op = "save" ->
            /\ saved' = com /\ UNCHANGED <<given, com>>
            /\ err' = IF E.raised # "" THEN "saving the position failed" ELSE ""
       [] E.op = "load" ->
            /\ given' = saved /\ com' = saved /\ UNCHANGED saved
            /\ err' = IF E.raised # "" THEN "loading a saved position failed"
                      ELSE IF ~EpochOk(saved, E.epoch) THEN "the committed epoch is wrong" ELSE ""
       [] E.op = "refuse" ->
            /\ UNCHANGED avars
            /\ err' = IF E.raised = "" THEN "a commit of batches that are not next in order was accepted"
                      ELSE IF ~E.same THEN "a refused commit changed the position" ELSE ""
       [] E.op = "foreign" ->
            /\ UNCHANGED avars
            /\ err' = IF E.raised = "" THEN "a position of another configuration was loaded" ELSE ""
  /\ UNCHANGED cid

TNext == Step
Report == err # "" => PrintT("@@" \o ToJson([case |-> cid, step |-> l - 1, clause |-> err]))
=============================================================================
