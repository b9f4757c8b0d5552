------------------------------ MODULE DistTrace ------------------------------
(***************************************************************************)
(* Sessions of the real trainer on real process groups, judged against     *)
(* DistTrainer.tla.  A case has                                            *)
(*   accum, total, batch (rows of a global micro-batch), save, temp,       *)
(*   state   : cadence of checkpoints (state 0: with every checkpoint)     *)
(*   world   : number of ranks of the reference                            *)
(*   ref     : w - identity of weights, optimizer and schedule after each  *)
(*             iteration of an uninterrupted run of that many ranks;       *)
(*             g - identity of each rank's generators then;                *)
(*             rows - the sorted rows of each global micro-batch, as one   *)
(*             process alone reads them (empty: not comparable)            *)
(*   events  : start / step / end, each with what every rank showed        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, Json, IOUtils, TLC

Cases == JsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES cid, l, err, it, saved, savedWorld, world, refused
tvars == <<cid, l, err, it, saved, savedWorld, world, refused>>

C == Cases[cid]
E == C.events[l]
R == 1..Len(E.ranks)

TInit == cid \in 1..Len(Cases) /\ l = 1 /\ err = "" /\ it = 0 /\ saved = 0 /\ savedWorld = 0 /\ world = 0 /\ refused = FALSE

StateDue(n) == C.state = 0 \/ n % C.state = 0
SaveDue(n) == n % C.save = 0 \/ n % C.temp = 0 \/ (C.state # 0 /\ n % C.state = 0)
Saves(n) == n > 0 /\ (n = C.total \/ (SaveDue(n) /\ StateDue(n)))
Max0(S) == IF S = {} THEN 0 ELSE Max(S)

Start ==
  /\ world' = E.world
  /\ refused' = (saved > 0 /\ savedWorld # E.world)
  /\ it' = saved
  /\ UNCHANGED <<saved, savedWorld>>
  /\ err' = IF refused' THEN IF \E r \in R : E.ranks[r].it >= 0 THEN "a state of another number of ranks was not refused" ELSE ""
            ELSE IF \E r \in R : E.ranks[r].it # saved THEN "a rank did not start from the newest state"
            ELSE ""

Step ==
  /\ it' = it + 1
  /\ UNCHANGED <<saved, savedWorld, world, refused>>
  /\ err' =
       IF refused THEN "a refused run trained"
       ELSE IF Len(E.ranks) # world THEN "an iteration was made by some ranks only"
       ELSE IF \E r \in R : E.ranks[r].it # it + 1 THEN "the ranks disagree on the iteration"
       ELSE IF \E r \in R : E.ranks[r].rows # (it + 1) * C.accum * C.batch THEN "rows counted are not those of the global batches"
       ELSE IF \E r \in R : E.ranks[r].w # E.ranks[1].w THEN "the ranks hold different weights"
       ELSE IF \E r \in R : Len(E.ranks[r].sizes) # C.accum \/ \E m \in 1..C.accum : E.ranks[r].sizes[m] * world # C.batch
         THEN "a rank did not read its share of the micro-batch"
       ELSE IF C.ref.rows # <<>> /\ \E m \in 1..C.accum : E.rows[m] # C.ref.rows[it * C.accum + m]
         THEN "the ranks together did not read the global micro-batch"
       ELSE IF C.ref.w # <<>> /\ world = C.world /\ it + 1 <= Len(C.ref.w) /\ E.ranks[1].w # C.ref.w[it + 1] THEN "the outcome differs from the uninterrupted run"
       ELSE IF C.ref.g # <<>> /\ world = C.world /\ it + 1 <= Len(C.ref.g) /\ \E r \in R : E.ranks[r].g # C.ref.g[it + 1][r] THEN "a rank's random numbers differ from the uninterrupted run"
       ELSE IF ~E.close THEN "the outcome differs from one process with the global batch"
       ELSE ""

End ==
  LET due == {n \in 1..it : Saves(n)}
      broken == E.fault.at # "none"
      \* a fault in an iteration leaves its state out
      last == IF broken THEN Max0({n \in due : n < E.fault.it}) ELSE Max0(due) IN
  /\ saved' = Max({saved, last})
  /\ savedWorld' = IF last > 0 /\ ~refused THEN world ELSE savedWorld
  /\ UNCHANGED <<it, world, refused>>
  /\ err' =
       IF E.hung THEN "a failure on one rank left the others waiting"
       ELSE IF refused THEN IF \E r \in R : E.ranks[r].how # "error" THEN "a state of another number of ranks was not refused" ELSE ""
       ELSE IF broken /\ \E r \in R : E.ranks[r].how # "error" THEN "a failure on one rank did not end the run on all"
       ELSE IF broken /\ it # E.fault.it - (IF E.fault.at \in {"after", "write", "val"} THEN 0 ELSE 1) THEN "the run did not end where a rank failed"
       ELSE IF broken /\ \E r \in R : ~E.ranks[r].told THEN "a rank was not told which failure ended the run"
       ELSE IF ~broken /\ \E r \in R : E.ranks[r].how # "done" \/ E.ranks[r].it # C.total THEN "a rank did not finish the run"
       ELSE IF ~broken /\ it # C.total THEN "a rank did not finish the run"
       ELSE IF \E r \in R : r # 1 /\ E.ranks[r].writes # 0 THEN "a rank other than the first wrote to the run directory"
       ELSE IF E.newest # saved' THEN "the newest state on disk is not the last one due"
       ELSE IF \E k \in 1..Len(E.logs) : E.logs[k].got - E.logs[k].want \notin -(3)..3 THEN "a logged loss is not the mean over all ranks"
       ELSE ""

TNext ==
  /\ err = "" /\ l <= Len(C.events)
  /\ CASE E.ev = "start" -> Start [] E.ev = "step" -> Step [] E.ev = "end" -> End
  /\ l' = l + 1 /\ UNCHANGED cid
Report == err # "" => PrintT("@@" \o ToJson([case |-> cid, step |-> l - 1, clause |-> err]))
=============================================================================
