------------------------------ MODULE AsyncRuns ------------------------------
(***************************************************************************)
(* A run whose checkpoints are written in the background does to the        *)
(* checkpoint directory what the same run writing at once does: the same    *)
(* changes with the same contents in the same order, only later.  A failed  *)
(* write ends both the same way; a crash leaves the directory as some        *)
(* moment of the run writing at once left it, and the run goes on from      *)
(* there to the same end.                                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, Json, IOUtils, TLC
Cases == JsonDeserialize(IOEnv.TRACE_FILE)
Prefix(a, b) == Len(a) <= Len(b) /\ a = SubSeq(b, 1, Len(a))
Differ(a, b) == CHOOSE k \in 1..(Len(a) + 1) : (k > Len(a) \/ k > Len(b) \/ a[k] # b[k]) /\ \A j \in 1..(k - 1) : j <= Len(b) /\ a[j] = b[j]
Verdict(c) ==
  IF c.how # "killed" /\ c.later # c.atonce
  THEN (IF Prefix(c.later, c.atonce) THEN "the run ended before its checkpoints were on disk" ELSE "the background writer changed the directory otherwise than a run writing at once")
  ELSE IF c.how # c.due THEN "a run writing in the background ended otherwise than one writing at once"
  ELSE IF c.how = "killed" /\ ~Prefix(c.later, c.whole) THEN "a crash left what no moment of a run writing at once leaves"
  ELSE IF c.final # c.end THEN "the run did not come to the same end"
  ELSE ""
Answers == [i \in 1..Len(Cases) |-> Verdict(Cases[i])]
=============================================================================
