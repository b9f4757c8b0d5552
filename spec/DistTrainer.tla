---------------------------- MODULE DistTrainer ----------------------------
(***************************************************************************)
(* Training on several ranks.  An iteration is a fixed sequence of phases; *)
(* in each a rank works alone (and may fail alone), then all ranks meet    *)
(* and learn of each other's failures.  "backward" and "reduce" are        *)
(* collective: nobody finishes them alone.  A saved state holds what every *)
(* rank needs and is written by the first rank only; it can be loaded by a *)
(* run of the same number of ranks.                                        *)
(*                                                                         *)
(* Exchange is the set of phases after which failures are exchanged; with  *)
(* one of them missing, some rank waits for ever (TLC: deadlock).          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, TLC

CONSTANTS Worlds, Total, Accum, SaveEvery, MaxSessions, Exchange

VARIABLES session, world, pc, waits, failed, it, micro, applied, grads, pos, disk, ended, faults
vars == <<session, world, pc, waits, failed, it, micro, applied, grads, pos, disk, ended, faults>>

Phases == {"fetch", "hook", "forward", "mutate", "after", "save"}
Max0(S) == IF S = {} THEN 0 ELSE Max(S)
Ranks == 0..(world - 1)
All(x) == [r \in Ranks |-> x]

Init ==
  /\ session = 0 /\ world = 1 /\ pc = [r \in {0} |-> "down"] /\ waits = {} /\ failed = {} /\ it = [r \in {0} |-> 0]
  /\ micro = [r \in {0} |-> 0] /\ applied = [r \in {0} |-> <<>>] /\ grads = [r \in {0} |-> <<>>] /\ pos = [r \in {0} |-> 0]
  /\ disk = {} /\ ended = "" /\ faults = <<>>

Down == \A r \in Ranks : pc[r] \in {"down", "done", "failed", "refused"}

Newest == CHOOSE s \in disk : \A t \in disk : t.it <= s.it

Start ==
  /\ Down /\ session < MaxSessions /\ (session = 0 \/ \E r \in Ranks : pc[r] # "done")
  /\ session' = session + 1
  /\ \E w \in Worlds :
     /\ world' = w
     /\ LET R == 0..(w - 1)
            ok == disk = {} \/ Newest.world = w IN
        /\ pc' = [r \in R |-> IF ~ok THEN "refused" ELSE IF disk # {} /\ Newest.it = Total THEN "done" ELSE "fetch"]
        /\ it' = [r \in R |-> IF ok /\ disk # {} THEN Newest.it ELSE 0]
        /\ applied' = [r \in R |-> IF ok /\ disk # {} THEN Newest.applied ELSE <<>>]
        /\ pos' = [r \in R |-> IF ok /\ disk # {} THEN Newest.pos ELSE 0]
        /\ micro' = [r \in R |-> 0] /\ grads' = [r \in R |-> <<>>]
  /\ waits' = {} /\ failed' = {} /\ ended' = ""
  /\ UNCHANGED <<disk, faults>>

(* a rank finishes the local part of its phase, or fails there: then it goes to the meeting point with its failure *)
Local(r) ==
  /\ r \in Ranks /\ pc[r] \in Phases /\ r \notin waits
  /\ \/ /\ waits' = waits \cup {r} /\ UNCHANGED <<pc, failed, faults>>
     \/ /\ \A k \in 1..Len(faults) : faults[k].session # session
        /\ pc[r] = "save" => r = 0
        /\ faults' = Append(faults, [session |-> session, rank |-> r, at |-> pc[r], it |-> it[r] + 1, micro |-> micro[r]])
        /\ failed' = failed \cup {r}
        /\ IF pc[r] \in Exchange THEN waits' = waits \cup {r} /\ UNCHANGED pc
           ELSE pc' = [pc EXCEPT ![r] = "failed"] /\ UNCHANGED waits
  /\ UNCHANGED <<session, world, it, micro, applied, grads, pos, disk, ended>>

Together(p) == \A r \in Ranks : pc[r] = p /\ r \in waits

Save(n) == n % SaveEvery = 0 \/ n = Total

Next1(p) ==
  CASE p = "fetch" -> pc' = All("hook") /\ pos' = [r \in Ranks |-> pos[r] + 1] /\ UNCHANGED <<it, micro, applied, grads, disk>>
    [] p = "hook" -> pc' = All("forward") /\ UNCHANGED <<it, micro, applied, grads, pos, disk>>
    [] p = "forward" -> /\ grads' = [r \in Ranks |-> Append(grads[r], pos[r])]
                        /\ IF micro[0] + 1 < Accum THEN pc' = All("fetch") /\ micro' = [r \in Ranks |-> micro[r] + 1]
                           ELSE pc' = All("mutate") /\ UNCHANGED micro
                        /\ UNCHANGED <<it, applied, pos, disk>>
    [] p = "mutate" -> pc' = All("after") /\ applied' = [r \in Ranks |-> applied[r] \o grads[r]] /\ grads' = All(<<>>)
                       /\ UNCHANGED <<it, micro, pos, disk>>
    [] p = "after" -> /\ it' = [r \in Ranks |-> it[r] + 1] /\ micro' = All(0)
                      /\ pc' = All(IF Save(it[0] + 1) THEN "save" ELSE "fetch")
                      /\ UNCHANGED <<applied, grads, pos, disk>>
    [] p = "save" -> /\ disk' = disk \cup {[it |-> it[0], applied |-> applied[0], pos |-> pos[0], world |-> world]}
                     /\ pc' = All(IF it[0] = Total THEN "done" ELSE "fetch")
                     /\ UNCHANGED <<it, micro, applied, grads, pos>>

Meet ==
  \E p \in Phases :
    /\ Together(p)
    /\ waits' = {}
    /\ IF failed # {} THEN pc' = All("failed") /\ UNCHANGED <<it, micro, applied, grads, pos, disk>> ELSE Next1(p)
    /\ UNCHANGED <<session, world, failed, ended, faults>>

Finished == Down /\ (session = MaxSessions \/ (session > 0 /\ \A r \in Ranks : pc[r] = "done")) /\ UNCHANGED vars

Next == Start \/ (\E r \in Ranks : Local(r)) \/ Meet \/ Finished
Spec == Init /\ [][Next]_vars

Upto(n) == [k \in 1..n |-> k]
(* every rank holds the same product of the same batches *)
Agree == \A r, s \in Ranks : it[r] = it[s] /\ applied[r] = applied[s] /\ pos[r] = pos[s]
InOrder == \A r \in Ranks : applied[r] = Upto(Len(applied[r])) /\ (pc[r] \in {"fetch", "save", "done"} /\ micro[r] = 0 => applied[r] = Upto(it[r] * Accum))
EndTogether == Down => \A r, s \in Ranks : pc[r] = pc[s]
FilesExact == \A s \in disk : s.applied = Upto(s.it * Accum) /\ s.pos = s.it * Accum
Others == \A r \in Ranks : pc[r] = "refused" => disk # {} /\ Newest.world # world
=============================================================================
