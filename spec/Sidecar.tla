------------------------------- MODULE Sidecar -------------------------------
(***************************************************************************)
(* Resuming from a state whose continuation file (the inputs a codebook has *)
(* collected so far) may not be what the state says: the run goes on        *)
(* exactly, or it is refused before it changes anything.  Never a third.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, Json, IOUtils, TLC
Cases == JsonDeserialize(IOEnv.TRACE_FILE)
Exact(c) == c.how = "done" /\ c.first = c.at /\ \A k \in c.at..c.total : c.steps[k] = c.want[k]
Refused(c) == c.how = "error" /\ ~c.started
Verdict(c) ==
  IF c.harmless
  THEN (IF c.how # "done" THEN "a run with whole files was not resumed"
        ELSE IF c.first # c.at THEN "a run was resumed from another iteration than the last one saved"
        ELSE IF ~Exact(c) THEN "a resumed run does not continue the uninterrupted one" ELSE "")
  ELSE IF Exact(c) THEN ""
  ELSE IF ~Refused(c) THEN "a run went on from inputs that are not the ones saved"
  ELSE IF ~c.untouched THEN "a refused run changed the checkpoints"
  ELSE ""
Answers == [i \in 1..Len(Cases) |-> Verdict(Cases[i])]
=============================================================================
