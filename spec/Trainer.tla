------------------------------- MODULE Trainer -------------------------------
(***************************************************************************)
(* The training loop with its checkpoint directory, under crashes, errors, *)
(* interrupts and non-finite steps at any point, over several sessions.    *)
(*                                                                         *)
(* A micro-batch is its number in the schedule; an iteration accumulates   *)
(* Accum of them and applies them as one optimizer step.  A model or state *)
(* file holds the sequence of micro-batches applied so far (with a flag    *)
(* for a non-finite step among them); a state also holds the committed     *)
(* position in the schedule.  Writing a file is atomic: a crash leaves the *)
(* old name or the new one.                                                *)
(*                                                                         *)
(* DrainBeforeRescue = FALSE is the design before fix T03: the state saved *)
(* when a run is interrupted was not checked for the last step's result.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, Json, TLC

CONSTANTS Total, Accum, SaveEvery, TempEvery, StateEvery, ValEvery, Keep, MaxSessions,
          DrainBeforeRescue, Gen

VARIABLES session, pc, it, applied, bad, grads, fetched, com, pending, nextbad, safe, rescue, lastState, temps, clean,
          disk, floor, permanent, faults
mem == <<it, applied, bad, grads, fetched, com, pending, nextbad, safe, rescue, lastState, temps, clean>>
vars == <<session, pc, mem, disk, floor, permanent, faults>>

Upto(n) == [k \in 1..n |-> k]
Max0(S) == IF S = {} THEN 0 ELSE Max(S)
States == {f \in disk : f.kind = "s"}
Models == {f \in disk : f.kind = "m"}
Newest == Max0({f.it : f \in States})

StateDue(n) == StateEvery = 0 \/ n % StateEvery = 0
SaveDue(n) == n % SaveEvery = 0 \/ n % TempEvery = 0 \/ (StateEvery # 0 /\ n % StateEvery = 0)
ValDue(n) == ValEvery # 0 /\ n % ValEvery = 0

Init ==
  /\ session = 0 /\ pc = "down" /\ it = 0 /\ applied = <<>> /\ bad = FALSE /\ grads = <<>> /\ fetched = 0 /\ com = 0
  /\ pending = <<>> /\ nextbad = FALSE /\ safe = FALSE /\ rescue = FALSE /\ lastState = 0 /\ temps = {} /\ clean = FALSE
  /\ disk = {} /\ floor = 0 /\ permanent = {} /\ faults = <<>>

Used == Len(faults)

Start ==
  /\ pc = "down" /\ session' = session + 1
  /\ LET n == Newest IN
     \/ /\ n = 0
        /\ it' = 0 /\ applied' = <<>> /\ bad' = FALSE /\ fetched' = 0 /\ com' = 0
     \/ \E s \in States, m \in Models :
        /\ s.it = n /\ m.it = n
        /\ it' = n /\ applied' = m.data /\ bad' = (m.bad \/ s.bad) /\ fetched' = s.pos /\ com' = s.pos
  /\ grads' = <<>> /\ pending' = <<>> /\ nextbad' = FALSE /\ safe' = FALSE /\ rescue' = FALSE
  /\ lastState' = Newest /\ temps' = {} /\ clean' = FALSE
  /\ pc' = IF it' = Total THEN "finish" ELSE "fetch"
  /\ UNCHANGED <<disk, floor, permanent, faults>>

Fetch ==
  /\ pc = "fetch"
  /\ fetched' = fetched + 1 /\ grads' = Append(grads, fetched + 1) /\ safe' = FALSE
  /\ pc' = "grad"
  /\ UNCHANGED <<it, applied, bad, com, pending, nextbad, rescue, lastState, temps, disk, floor, permanent, clean, faults, session>>

Grad ==
  /\ pc = "grad"
  /\ pc' = IF Len(grads) = Accum THEN "opt" ELSE "fetch"
  /\ UNCHANGED <<mem, disk, floor, permanent, faults, session>>

Opt ==
  /\ pc = "opt"
  /\ applied' = applied \o grads /\ bad' = (bad \/ nextbad) /\ grads' = <<>>
  /\ pending' = Append(pending, nextbad) /\ nextbad' = FALSE
  /\ pc' = "commit"
  /\ UNCHANGED <<it, fetched, com, safe, rescue, lastState, temps, disk, floor, permanent, clean, faults, session>>

Commit ==
  /\ pc = "commit"
  /\ com' = fetched /\ it' = it + 1
  /\ pc' = "drain"
  /\ UNCHANGED <<applied, bad, grads, fetched, pending, nextbad, safe, rescue, lastState, temps, disk, floor, permanent, clean, faults, session>>

Judged(all) == IF all THEN Len(pending) ELSE Len(pending) - 1
Drain ==
  /\ pc = "drain"
  /\ LET n == Judged(SaveDue(it) \/ ValDue(it)) IN
     IF \E k \in 1..n : pending[k]
     THEN pc' = "down" /\ UNCHANGED <<pending, safe>>
     ELSE /\ pending' = SubSeq(pending, n + 1, Len(pending))
          /\ pc' = IF ValDue(it) THEN "val" ELSE "safe"
          /\ UNCHANGED safe
  /\ UNCHANGED <<it, applied, bad, grads, fetched, com, nextbad, rescue, lastState, temps, disk, floor, permanent, clean, faults, session>>

Val == /\ pc = "val" /\ pc' = "safe" /\ UNCHANGED <<mem, disk, floor, permanent, faults, session>>

Safe ==
  /\ pc = "safe"
  /\ safe' = TRUE
  /\ pc' = IF SaveDue(it) THEN "model" ELSE IF it = Total THEN "finish" ELSE "between"
  /\ UNCHANGED <<it, applied, bad, grads, fetched, com, pending, nextbad, rescue, lastState, temps, disk, floor, permanent, clean, faults, session>>

Between == /\ pc = "between" /\ pc' = "fetch" /\ UNCHANGED <<mem, disk, floor, permanent, faults, session>>

\* the last state, when the last iteration's save did not write one
Finish ==
  /\ pc = "finish"
  /\ IF lastState = it THEN pc' = "done" /\ UNCHANGED <<rescue, pending>>
     ELSE IF \E k \in 1..Len(pending) : pending[k] THEN pc' = "down" /\ UNCHANGED <<rescue, pending>>
     ELSE pc' = "model" /\ rescue' = TRUE /\ pending' = <<>>
  /\ UNCHANGED <<it, applied, bad, grads, fetched, com, nextbad, safe, lastState, temps, disk, floor, permanent, clean, faults, session>>

WriteModel ==
  /\ pc = "model"
  /\ disk' = {f \in disk : ~(f.kind = "m" /\ f.it = it)}
             \cup {[kind |-> "m", it |-> it, data |-> applied, bad |-> bad, pos |-> 0]}
  /\ temps' = IF it % SaveEvery # 0 THEN temps \cup {it} ELSE temps
  /\ permanent' = IF it % SaveEvery = 0 THEN permanent \cup {it} ELSE permanent
  /\ pc' = IF rescue \/ StateDue(it) THEN "state" ELSE "prune"
  /\ UNCHANGED <<it, applied, bad, grads, fetched, com, pending, nextbad, safe, rescue, lastState, floor, clean, faults, session>>

WriteState ==
  /\ pc = "state"
  /\ disk' = {f \in disk : ~(f.kind = "s" /\ f.it = it)}
             \cup {[kind |-> "s", it |-> it, data |-> applied, bad |-> bad, pos |-> com]}
  /\ lastState' = it /\ floor' = Max({floor, it})
  /\ pc' = "prune"
  /\ UNCHANGED <<it, applied, bad, grads, fetched, com, pending, nextbad, safe, rescue, temps, permanent, clean, faults, session>>

Kept == IF Keep < 0 THEN {f.it : f \in States}
        ELSE {n \in {f.it : f \in States} : Cardinality({f \in States : f.it > n}) < Keep}
\* files are removed one after the other, states first
Garbage ==
  LET dead == {f \in States : f.it \notin Kept} IN
  IF dead # {} THEN dead
  ELSE {f \in Models : f.it \in temps /\ f.it # Max0({g.it : g \in Models}) /\ f.it \notin Kept}
Prune ==
  /\ pc = "prune"
  /\ IF Garbage # {}
     THEN \E f \in Garbage : disk' = disk \ {f} /\ UNCHANGED <<pc, rescue, clean>>
     ELSE /\ UNCHANGED <<disk, rescue>> /\ clean' = TRUE
          /\ pc' = IF faults # <<>> /\ faults[Len(faults)].kind = "interrupt" /\ faults[Len(faults)].session = session /\ rescue
                      /\ it # Total
                   THEN "down"
                   ELSE IF it = Total THEN "finish" ELSE "between"
  /\ UNCHANGED <<it, applied, bad, grads, fetched, com, pending, nextbad, safe, lastState, temps, floor, permanent, faults, session>>

Where == [fetch |-> "fetch", grad |-> "forward", opt |-> "optim", commit |-> "after", val |-> "val",
          between |-> "between", model |-> "write", state |-> "write", prune |-> "write"]
Fault(kind) == [kind |-> kind, at |-> Where[pc], phase |-> pc,
                it |-> IF pc \in {"fetch", "grad", "opt", "commit", "between"} THEN it + 1 ELSE it,
                micro |-> IF pc \in {"fetch", "grad"} THEN (IF pc = "fetch" THEN Len(grads) ELSE Len(grads) - 1) ELSE 0,
                session |-> session]

\* the process is gone, or the failure ends the session without a save
Fail ==
  /\ pc \in DOMAIN Where /\ Used < MaxSessions
  /\ \/ \E kind \in {"kill", "error"} :
          /\ faults' = Append(faults, Fault(kind))
          /\ pc' = "down" /\ (pc = "between" => kind = "kill")
          /\ UNCHANGED <<mem, disk, floor, permanent, session>>
     \* a torn write of this kind leaves the old name in place as well
     \/ /\ pc = "between" /\ faults' = Append(faults, Fault("interrupt"))
        /\ IF DrainBeforeRescue /\ \E k \in 1..Len(pending) : pending[k]
           THEN pc' = "down" /\ UNCHANGED mem
           ELSE IF lastState = it THEN pc' = "down" /\ UNCHANGED mem
           ELSE /\ pc' = "model" /\ rescue' = TRUE
                /\ UNCHANGED <<it, applied, bad, grads, fetched, com, pending, nextbad, safe, lastState, temps, clean>>
        /\ UNCHANGED <<disk, floor, permanent, session>>
     \/ /\ pc # "between" /\ ~safe /\ faults' = Append(faults, Fault("interrupt"))
        /\ pc' = "down" /\ UNCHANGED <<mem, disk, floor, permanent, session>>

\* the numbers go wrong in this step: the first micro-batches are judged at once
Spoil ==
  /\ pc = "grad" /\ Used < MaxSessions /\ ~nextbad
  /\ faults' = Append(faults, Fault("spoil"))
  /\ IF Len(grads) < Accum
     THEN pc' = "down" /\ UNCHANGED mem
     ELSE nextbad' = TRUE /\ UNCHANGED <<pc, it, applied, bad, grads, fetched, com, pending, safe, rescue, lastState, temps, clean>>
  /\ UNCHANGED <<disk, floor, permanent, session>>

Next == Start \/ Fetch \/ Grad \/ Opt \/ Commit \/ Drain \/ Val \/ Safe \/ Between \/ Finish
        \/ WriteModel \/ WriteState \/ Prune \/ Fail \/ Spoil

Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

----------------------------------------------------------------------------
\* T01
AppliedInOrder == pc # "down" => applied = Upto(Accum * (IF pc = "commit" THEN it + 1 ELSE it))
CommittedPosition == pc \notin {"down", "commit"} => com = Accum * it
\* T02, T04
FilesExact == \A f \in disk : f.data = Upto(Accum * f.it) /\ (f.kind = "s" => f.pos = Accum * f.it)
NewestLoadable == Newest # 0 => \E m \in Models : m.it = Newest
StatesLoadable == \A s \in States : \E m \in Models : m.it = s.it
NeverBack == Newest >= floor \/ Keep = 0
PermanentKept == \A n \in permanent : \E m \in Models : m.it = n
Bounded == (pc \in {"between", "done"} /\ clean /\ Keep >= 0) => Cardinality(States) <= Keep
TempBounded == (pc \in {"between", "done"} /\ clean) =>
                 \A n \in temps : (\E m \in Models : m.it = n) => n \in Kept \/ n = Max0({m.it : m \in Models})
\* T03
NoBadFile == \A f \in disk : ~f.bad
NoBadValidation == pc = "val" => ~bad
NoBadEnd == pc = "done" => ~bad
\* with failures exhausted the run ends with everything applied
Completes == <>[](pc = "done")
DoneIsAll == pc = "done" => it = Total /\ (Keep # 0 => Newest = Total)

\* histories for replay
PrintDone == (Gen /\ pc = "done" /\ faults # <<>>) => PrintT("@@" \o ToJson(faults))
=============================================================================
