----------------------------- MODULE AsyncTrace -----------------------------
(***************************************************************************)
(* What the training thread and the real background writer showed: calls    *)
(* and their ends, every file with its content, pruning, failures.  The     *)
(* device is not seen here: it only decides when a snapshot is taken, and   *)
(* whatever it does a file has to hold the values at the call.              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Json, IOUtils, TLC
Cases == JsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES cid, l, err,
          values, counts,    \* tensors and plain numbers of the training thread
          call,              \* "" | "submit" | "flush"
          job,               \* [save, files, hook, want, next, state] of the newest save taken; state "open" | "ended" | "failed"
          offered,           \* the save the running call offers, or an empty one
          unsaid             \* a failure that has not been raised yet
tvars == <<cid, l, err, values, counts, call, job, offered, unsaid>>
C == Cases[cid]
None == [save |-> 0, files |-> <<>>, hook |-> FALSE, want |-> <<>>, next |-> 1, state |-> "ended"]
TInit == /\ cid \in 1..Len(Cases) /\ l = 1 /\ err = "" /\ values = [c \in 1..C.cells |-> 0] /\ counts = 0 /\ call = "" /\ job = None
         /\ offered = None /\ unsaid = FALSE
Ev == C.events[l]
Want(files) == [f \in 1..Len(files) |-> [i \in 1..Len(files[f]) |-> IF files[f][i] = 0 THEN counts ELSE values[files[f][i]]]]
Step(e) == err' = e /\ l' = l + 1 /\ UNCHANGED cid
Set == Step("") /\ values' = (IF Ev.cell > 0 THEN [values EXCEPT ![Ev.cell] = Ev.v] ELSE values)
       /\ counts' = (IF Ev.cell = 0 THEN Ev.v ELSE counts) /\ UNCHANGED <<call, job, offered, unsaid>>
Call == /\ Step("") /\ call' = Ev.what
        /\ offered' = (IF Ev.what = "submit" THEN [save |-> Ev.save, files |-> Ev.files, hook |-> Ev.hook, want |-> Want(Ev.files), next |-> 1,
                                                   state |-> IF Ev.files = <<>> /\ ~Ev.hook THEN "ended" ELSE "open"] ELSE None)
        /\ UNCHANGED <<values, counts, job, unsaid>>
\* the job a write belongs to: the newest save, or the one now offered
Mine == IF offered.save # 0 /\ Ev.save = offered.save THEN offered ELSE job
Last(j) == Len(j.files) + (IF j.hook THEN 1 ELSE 0)
WriteError == LET j == Mine IN
              IF j.save # Ev.save THEN "a save wrote after another had been taken"
              ELSE IF j.save = offered.save /\ offered.save # 0 /\ job.state = "open" THEN "a save wrote before the save before it was complete"
              ELSE IF j.save = offered.save /\ offered.save # 0 /\ unsaid THEN "a save was written although the one before it had failed"
              ELSE IF j.state = "failed" THEN "a save went on after it had failed"
              ELSE IF j.state = "ended" THEN "a save wrote after it was complete"
              ELSE IF Ev.file # j.next THEN (IF Ev.file > Len(j.files) THEN "files were pruned before all were written" ELSE "the files were written in another order")
              ELSE IF ~Ev.fail /\ Ev.file <= Len(j.files) /\ Ev.content # j.want[Ev.file] THEN "a file does not hold what there was when the save was asked for"
              ELSE ""
After(j) == [j EXCEPT !.next = @ + 1, !.state = IF Ev.fail THEN "failed" ELSE IF Ev.file = Last(j) THEN "ended" ELSE "open"]
Write == /\ Step(WriteError) /\ unsaid' = (unsaid \/ Ev.fail)
         /\ IF Mine.save = offered.save /\ offered.save # 0 THEN job' = After(offered) /\ offered' = None ELSE job' = After(job) /\ UNCHANGED offered
         /\ UNCHANGED <<values, counts, call>>
\* the end of a call: the save before is complete, a failure is raised once, by its cause
ReturnError ==
  LET late == call = "flush" \/ offered.save # 0 \* nothing of this call's own save was written
      old == IF late THEN job.state = "open" ELSE FALSE IN
  IF old THEN (IF call = "flush" THEN "a flush came back before the save was complete" ELSE "a save was taken before the one before it was complete")
  ELSE IF Ev.raised /\ ~unsaid THEN (IF Ev.own THEN "a failure was raised twice" ELSE "the writer failed of itself")
  ELSE IF Ev.raised /\ ~Ev.own THEN "the failure raised does not name its cause"
  ELSE IF late /\ unsaid /\ ~Ev.raised THEN "a failed save was passed over in silence"
  ELSE IF C.sync /\ call = "submit" /\ ~Ev.raised /\ (late \/ job.state = "open") /\ Len(offered.files) > 0 THEN "a save asked for at once was put off"
  ELSE ""
Return == /\ Step(ReturnError) /\ call' = "" /\ unsaid' = (IF Ev.raised THEN FALSE ELSE unsaid)
          /\ job' = (IF offered.save # 0 /\ ~Ev.raised THEN offered ELSE job) /\ offered' = None
          /\ UNCHANGED <<values, counts>>
Over == /\ Step(IF job.state = "open" THEN "the run ended before its last save was complete" ELSE IF unsaid THEN "a failed save was passed over in silence"
                ELSE IF Ev.stuck THEN "the writer never came back" ELSE "") /\ UNCHANGED <<values, counts, call, job, offered, unsaid>>
TNext == /\ err = "" /\ l <= Len(C.events)
         /\ CASE Ev.ev = "set" -> Set [] Ev.ev = "call" -> Call [] Ev.ev = "write" -> Write [] Ev.ev = "return" -> Return [] Ev.ev = "over" -> Over
Report == err # "" => PrintT("@@" \o ToJson([case |-> cid, step |-> l - 1, clause |-> err]))
=============================================================================
