----------------------------- MODULE SourcesTrace -----------------------------
(***************************************************************************)
(* The batches a real unshuffled stream gave, epoch after epoch, with its   *)
(* state saved and loaded in between.                                       *)
(***************************************************************************)
EXTENDS Sources, Json, IOUtils, TLC
Cases == JsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES cid, l, at, err
tvars == <<cid, l, at, err>>
C == Cases[cid]
Orders == [i \in 1..Len(Cases) |-> Order(Cases[i].source)]
Epoch(i) == LET c == Cases[i] o == Orders[i] n == Len(o) IN
            IF c.train THEN LET whole == n - (n % c.batch) IN SubSeq(o, 1, IF c.steps > 0 /\ c.steps * c.batch < whole THEN c.steps * c.batch ELSE whole) ELSE o
Epochs == [i \in 1..Len(Cases) |-> Epoch(i)]
E == Epochs[cid]
TInit == cid \in 1..Len(Cases) /\ l = 1 /\ at = 0 /\ err = ""
Ev == C.events[l]
Go(e, a) == err' = e /\ at' = a /\ l' = l + 1 /\ UNCHANGED cid
Left == Len(E) - at
Batch == LET n == Len(Ev.rows) IN
         IF n > Left THEN Go(IF Left = 0 THEN "records were given after the end" ELSE "more records were given than there are", at)
         ELSE IF Ev.rows # SubSeq(E, at + 1, at + n) THEN Go("the records came in another order", at)
         ELSE IF n < C.batch /\ (C.train \/ n < Left) THEN Go("a batch was not full", at)
         ELSE Go("", at + n)
TNext == /\ err = "" /\ l <= Len(C.events)
         /\ CASE Ev.op = "batch" -> Batch
              [] Ev.op = "end" -> IF C.broken THEN Go("a broken file was read as if it were whole", 0)
                                  ELSE IF Left > 0 THEN Go("the epoch ended before its records", 0) ELSE Go("", 0)
              [] Ev.op = "saved" -> Go("", at)
              [] Ev.op = "raised" -> Go(IF C.broken THEN "" ELSE "the stream failed", at)
Report == err # "" => PrintT("@@" \o ToJson([case |-> cid, step |-> l - 1, clause |-> err]))
=============================================================================
