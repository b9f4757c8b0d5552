--------------------------- MODULE PlanTransaction ---------------------------
(***************************************************************************)
(* What a training loop sees of a streaming dataset: batches 1..Total in a *)
(* fixed order.  Batches are handed out ahead of being committed; what is  *)
(* handed out but not committed can be taken back and is handed out again; *)
(* a saved position can be loaded in a new process.                        *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences

CONSTANT Total

VARIABLES given, com, saved

avars == <<given, com, saved>>

AInit == given = 0 /\ com = 0 /\ saved = -1
Give == given < Total /\ given' = given + 1 /\ UNCHANGED <<com, saved>>
Commit == \E k \in 1..(given - com) : com' = com + k /\ UNCHANGED <<given, saved>>
Rollback == given' = com /\ UNCHANGED <<com, saved>>
Save == saved' = com /\ UNCHANGED <<given, com>>
Load == saved >= 0 /\ com' = saved /\ given' = saved /\ UNCHANGED saved

ANext == Give \/ Commit \/ Rollback \/ Save \/ Load
ASpec == AInit /\ [][ANext]_avars
=============================================================================
