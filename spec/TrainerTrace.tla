----------------------------- MODULE TrainerTrace -----------------------------
(***************************************************************************)
(* Recorded training runs over several sessions, judged against Trainer:   *)
(* what each session loaded, consumed, applied and validated, and what the *)
(* checkpoint directory showed after every change.  A case has             *)
(*   total, accum, save, temp, state, val, keep   as in Trainer            *)
(*   ref     batches (all micro-batches of the uninterrupted run), sched   *)
(*           and plain (is each what the data set alone and a plain        *)
(*           training loop give), w and r (weights with optimizer and      *)
(*           scheduler state; generators) and rows, epoch, indexed by      *)
(*           iteration + 1                                                 *)
(*   events  start, micro, step, val, commit, dir, fault, end              *)
(* A file is `good' when it holds exactly what the uninterrupted run had.  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt, Json, IOUtils, TLC

Cases == JsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES cid, l, err, it, mic, bad, hit, begun, files, floor, perm, vald, rescue
tvars == <<cid, l, err, it, mic, bad, hit, begun, files, floor, perm, vald, rescue>>

C == Cases[cid]
E == C.events[l]
Max0(S) == IF S = {} THEN 0 ELSE Max(S)

TInit ==
  /\ cid \in 1..Len(Cases) /\ l = 1 /\ err = ""
  /\ it = 0            \* iterations finished by this session's memory
  /\ mic = 0           \* micro-batches of the step under way
  /\ bad = 0           \* iteration whose numbers went wrong in this session
  /\ hit = FALSE       \* a fault struck in this session
  /\ begun = 0         \* where this session started
  /\ files = {}        \* of the last listing: <<kind, iteration>>
  /\ floor = 0         \* newest state ever seen
  /\ perm = {}         \* permanent snapshots seen
  /\ vald = 0          \* last validated iteration
  /\ rescue = FALSE    \* a finite session was interrupted between iterations

StateDue(n) == C.state = 0 \/ n % C.state = 0
SaveDue(n) == n % C.save = 0 \/ n % C.temp = 0 \/ (C.state # 0 /\ n % C.state = 0)
ValDue(n) == C.val # 0 /\ n % C.val = 0
StatesOf(F) == {f[2] : f \in {g \in F : g[1] = "state"}}
ModelsOf(F) == {f[2] : f \in {g \in F : g[1] = "model"}}

Start(newest) ==
  IF E.it # newest THEN "a session does not start at the newest saved state"
  ELSE IF E.w # C.ref.w[E.it + 1] THEN "a resumed session has other weights, optimizer or scheduler state"
  ELSE IF E.rows # C.ref.rows[E.it + 1] THEN "a resumed session counts other rows"
  ELSE ""

Micro ==
  IF bad # 0 /\ it >= bad + 1 THEN "training went on after a non-finite step"
  ELSE IF it >= C.total THEN "training went on after the last iteration"
  ELSE IF E.m # mic THEN "a micro-batch was taken out of turn"
  ELSE IF C.ref.batches[C.accum * it + mic + 1] # E.batch
       THEN IF \E k \in 1..(C.accum * it + mic) : C.ref.batches[k] = E.batch THEN "a step consumes a batch again"
            ELSE IF \E k \in (C.accum * it + mic + 2)..Len(C.ref.batches) : C.ref.batches[k] = E.batch
                 THEN "a step skips a batch"
            ELSE "a step consumes another batch"
  ELSE IF ~C.ref.sched[C.accum * it + mic + 1] THEN "a batch is not the next of the data set's own schedule"
  ELSE IF E.it # it + 1 THEN "a step carries another iteration number"
  ELSE ""

Step ==
  IF mic # C.accum THEN "an optimizer step was taken on another number of micro-batches"
  ELSE IF E.it # it + 1 THEN "a step carries another iteration number"
  ELSE IF bad # 0 THEN ""
  ELSE IF ~C.ref.plain[it + 2] THEN "a step leaves other weights than a plain training loop"
  ELSE IF E.w # C.ref.w[it + 2] THEN "a step leaves other weights, optimizer or scheduler state than in the uninterrupted run"
  ELSE IF E.r # C.ref.r[it + 2] THEN "a step leaves other random generators than in the uninterrupted run"
  ELSE ""

Val ==
  IF bad # 0 THEN "validation ran on a non-finite step"
  ELSE IF E.it # it + 1 \/ ~ValDue(E.it) THEN "validation ran at another iteration"
  ELSE IF E.w # C.ref.w[it + 2] THEN "validation saw other weights than in the uninterrupted run"
  ELSE ""

Commit ==
  IF E.it = begun /\ it = begun /\ l > 1 /\ C.events[l - 1].ev = "start" THEN ""
  ELSE IF E.it # it + 1 THEN "an iteration was counted without its step"
  ELSE IF bad # 0 /\ E.it > bad THEN "training went on after a non-finite step"
  ELSE IF E.rows # C.ref.rows[E.it + 1] THEN "an iteration counts other rows"
  ELSE IF E.epoch # C.ref.epoch[E.it + 1] THEN "an iteration ends in another epoch"
  ELSE IF ValDue(E.it) /\ vald # E.it THEN "a due validation was left out"
  ELSE ""

\* the directory: F the new listing
Dir(F) ==
  LET was == files
      lost == was \ F
      new == StatesOf(F)
      old == ModelsOf(F)
      here == IF it + 1 <= C.total THEN it + 1 ELSE C.total   \* the newest iteration this session may have written
  IN
  IF \E k \in 1..Len(E.files) : ~E.files[k].good
  THEN IF bad # 0 /\ \E k \in 1..Len(E.files) : ~E.files[k].good /\ E.files[k].it >= bad
       THEN "a non-finite step was written to a checkpoint"
       ELSE "a checkpoint file does not hold what the uninterrupted run had"
  ELSE IF bad # 0 /\ \E f \in F \ was : f[2] >= bad THEN "a non-finite step was written to a checkpoint"
  ELSE IF \E n \in new : n \notin old THEN "a state exists without its model weights"
  ELSE IF \E n \in perm : n \notin old THEN "a permanent snapshot was deleted"
  ELSE IF \E n \in StatesOf(lost) : C.keep < 0 \/ Cardinality({m \in new : m > n}) < C.keep
       THEN "a state that had to be kept was deleted"
  ELSE IF \E n \in ModelsOf(lost) : n <= begun THEN "a snapshot of an earlier session was deleted"
  ELSE IF \E n \in ModelsOf(lost) : n = Max0(ModelsOf(was)) THEN "the newest snapshot was deleted"
  ELSE IF \E f \in F \ was : f[2] # it /\ f[2] # it + 1 THEN "a file was written for another iteration"
  ELSE IF \E f \in F \ was : ~(SaveDue(f[2]) \/ f[2] = C.total \/ hit) THEN "a checkpoint was written that was not due"
  ELSE ""

\* a quiet directory, between iterations or at the end, after a save that was not hit
Quiet(F) ==
  LET new == StatesOf(F)
      old == ModelsOf(F) IN
  IF Dir(F) # "" THEN Dir(F)
  ELSE IF hit \/ it <= begun \/ ~SaveDue(it) THEN ""
  ELSE IF it \notin old /\ (it % C.save = 0 \/ Max0(old) < it) THEN "a due snapshot was not written"
  ELSE IF StateDue(it) /\ C.keep # 0 /\ it \notin new THEN "a due state was not written"
  ELSE IF C.keep >= 0 /\ Cardinality(new) > C.keep THEN "more states are kept than configured"
  ELSE IF \E n \in old : n > begun /\ n <= it /\ SaveDue(n) /\ n % C.save # 0 /\ n # Max0(old) /\ n \notin new
       THEN "a temporary snapshot was left behind"
  ELSE ""

End ==
  IF E.how = "done"
  THEN IF bad # 0 THEN "a run with a non-finite step finished"
       ELSE IF it # C.total THEN "a run finished before its last iteration"
       ELSE IF C.keep # 0 /\ C.total \notin StatesOf(files) THEN "a run finished without its last state"
       ELSE ""
  ELSE IF E.how = "interrupted" /\ rescue /\ C.keep # 0 /\ it # 0 /\ it \notin StatesOf(files)
       THEN "an interrupt between iterations lost finished work"
  ELSE IF E.how # "killed" /\ ~hit THEN "a session failed without a cause"
  ELSE ""

Spoils == {"nan-loss", "inf-metric", "inf-aux", "nan-grad", "huge-grad"}
F0 == {<<E.files[k].kind, E.files[k].it>> : k \in 1..Len(E.files)}

TNext ==
  /\ err = "" /\ l <= Len(C.events) /\ l' = l + 1
  /\ CASE E.ev = "start" ->
            /\ err' = Start(Max0(StatesOf(files)))
            /\ it' = E.it /\ begun' = E.it /\ mic' = 0 /\ bad' = 0 /\ vald' = 0 /\ rescue' = FALSE /\ hit' = FALSE
            /\ UNCHANGED <<files, floor, perm>>
       [] E.ev = "micro" ->
            /\ err' = Micro /\ mic' = mic + 1
            /\ UNCHANGED <<it, bad, hit, begun, files, floor, perm, vald, rescue>>
       [] E.ev = "step" ->
            /\ err' = Step
            /\ UNCHANGED <<it, mic, bad, hit, begun, files, floor, perm, vald, rescue>>
       [] E.ev = "val" ->
            /\ err' = Val /\ vald' = E.it
            /\ UNCHANGED <<it, mic, bad, hit, begun, files, floor, perm, rescue>>
       [] E.ev = "commit" ->
            /\ err' = Commit /\ it' = E.it /\ mic' = 0
            /\ UNCHANGED <<bad, hit, begun, files, floor, perm, vald, rescue>>
       [] E.ev = "dir" ->
            /\ err' = (IF E.quiet THEN Quiet(F0) ELSE Dir(F0))
            /\ files' = F0 /\ floor' = Max({floor} \cup StatesOf(F0))
            /\ perm' = perm \cup {n \in ModelsOf(F0) : n % C.save = 0}
            /\ UNCHANGED <<it, mic, bad, hit, begun, vald, rescue>>
       [] E.ev = "fault" ->
            /\ err' = ""
            /\ hit' = TRUE
            /\ bad' = IF E.what \in Spoils /\ bad = 0 THEN E.it ELSE bad
            /\ rescue' = (E.what = "interrupt" /\ E.at = "between" /\ bad = 0)
            /\ UNCHANGED <<it, mic, begun, files, floor, perm, vald>>
       [] E.ev = "end" ->
            /\ err' = End
            /\ UNCHANGED <<it, mic, bad, hit, begun, files, floor, perm, vald, rescue>>
  /\ UNCHANGED cid

Report == err # "" => PrintT("@@" \o ToJson([case |-> cid, step |-> l - 1, clause |-> err]))
=============================================================================
