------------------------------- MODULE Export -------------------------------
(***************************************************************************)
(* Exporting weights over a file an engine may be reading, again and again. *)
(* An export first decides whether it can be done, then writes all chunks   *)
(* to a temporary file and finally renames it.  It may fail or the process  *)
(* may die between any two operations; a left-over temporary file is simply *)
(* overwritten.  Direct = TRUE is the mistake of writing in place.          *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC
CONSTANTS Chunks, MaxExports, Direct
VARIABLES n, pc, target, tmp, outcome, before
vars == <<n, pc, target, tmp, outcome, before>>

(* contents: <<>> absent; <<g, k>> the first k chunks of export g *)
Init == n = 0 /\ pc = "idle" /\ target = <<>> /\ tmp = <<>> /\ outcome = "" /\ before = <<>>

Begin ==
  /\ pc = "idle" /\ n < MaxExports
  /\ n' = n + 1 /\ before' = target /\ UNCHANGED <<target, tmp>>
  /\ \/ pc' = "open" /\ outcome' = ""
     \/ pc' = "idle" /\ outcome' = "refused"
Open ==
  /\ pc = "open" /\ pc' = "write"
  /\ IF Direct THEN target' = <<n, 0>> /\ UNCHANGED tmp ELSE tmp' = <<n, 0>> /\ UNCHANGED target
  /\ UNCHANGED <<n, outcome, before>>
Write ==
  /\ pc = "write"
  /\ LET f == IF Direct THEN target ELSE tmp IN
     IF f[2] < Chunks
     THEN /\ IF Direct THEN target' = <<n, f[2] + 1>> /\ UNCHANGED tmp ELSE tmp' = <<n, f[2] + 1>> /\ UNCHANGED target
          /\ UNCHANGED <<pc, outcome>>
     ELSE /\ pc' = "idle" /\ outcome' = "ok"
          /\ IF Direct THEN UNCHANGED <<target, tmp>> ELSE target' = tmp /\ tmp' = <<>>
  /\ UNCHANGED <<n, before>>
Fail == pc \in {"open", "write"} /\ pc' = "idle" /\ outcome' = "failed" /\ UNCHANGED <<n, target, tmp, before>>
Next == Begin \/ Open \/ Write \/ Fail
Spec == Init /\ [][Next]_vars

Whole == target = <<>> \/ target[2] = Chunks
Kept == outcome # "ok" => target = before
Own == pc = "idle" /\ outcome = "ok" => target = <<n, Chunks>>
=============================================================================
