---------------------------- MODULE EpochPlanTrace ----------------------------
(***************************************************************************)
(* Epochs recorded from the real planner and data readers, judged batch by *)
(* batch.  A case is one epoch:                                            *)
(*   b, w, train, budget, fifo, sharded                                    *)
(*   arr      ids in source order, one list per cycle (<<>> if unknown)    *)
(*   all      ids of the records this epoch has to cover                   *)
(*   shape    shape of each id (ids are 1..Len(shape))                     *)
(*   batches  [rows |-> ids (0: not a record), real, shape, last]          *)
(*   ended    the stream ended by itself                                   *)
(*   again    rows of the same epoch planned by a second instance          *)
(*   others   rows of other epochs / seeds (shuffling must tell them apart)*)
(* With fifo the epoch is recomputed exactly; otherwise the plan is judged *)
(* by the invariants of EpochPlan.                                         *)
(***************************************************************************)
EXTENDS EpochPlan, Json, IOUtils

Cases == JsonDeserialize(IOEnv.TRACE_FILE)

VARIABLES cid, l, err, seen, left
tvars == <<vars, cid, l, err, seen, left>>

C == Cases[cid]
Bt == C.batches[l]
Shp(i) == C.shape[i]
Known(i) == i \in 1..Len(C.shape)
Arrivals == FlattenSeq(C.arr)
AllShapes == {C.shape[i] : i \in ToSet(C.all)}
RealIds(b) == SelectSeq([k \in 1..Len(b.rows) |-> IF b.real[k] THEN b.rows[k] ELSE -1], LAMBDA x : x # -1)

\* ---- the exact plan of a stream that is not shuffled
RECURSIVE Fifo(_, _, _)
Fifo(rest, qs, p) ==
  IF C.budget > 0 /\ Len(p) = C.budget THEN p
  ELSE IF rest = <<>> THEN
    IF C.train THEN p
    ELSE LET nonempty == {s \in DOMAIN qs : qs[s] # <<>>} IN
         IF nonempty = {} THEN p
         ELSE LET s == Min(nonempty)
                  q == qs[s]
                  rows == [k \in 1..C.b |-> q[((k - 1) % Len(q)) + 1]]
              IN Fifo(<<>>, [qs EXCEPT ![s] = <<>>], Append(p, [rows |-> rows, n |-> Len(q)]))
  ELSE LET x == Head(rest) s == Shp(x) q == Append(qs[s], x) IN
       IF Len(q) = C.b
       THEN Fifo(Tail(rest), [qs EXCEPT ![s] = <<>>], Append(p, [rows |-> q, n |-> C.b]))
       ELSE Fifo(Tail(rest), [qs EXCEPT ![s] = q], p)

FifoRows == Fifo(Arrivals, [s \in {Shp(i) : i \in ToSet(Arrivals)} |-> <<>>], <<>>)

TInit ==
  /\ Init
  /\ cid \in 1..Len(Cases) /\ l = 1 /\ err = "" /\ seen = {} /\ left = {}

\* arrival index of a record in the (only) cycle
Index(i) == CHOOSE k \in 1..Len(C.arr[1]) : C.arr[1][k] = i
NShapes == Cardinality(AllShapes)

BatchErr ==
  LET ids == RealIds(Bt) IN
  IF Len(Bt.rows) # C.b \/ Len(Bt.real) # C.b THEN "a batch does not have the configured number of rows"
  ELSE IF \E k \in 1..C.b : ~Known(Bt.rows[k]) THEN "a delivered row is not a record of the data"
  ELSE IF C.train /\ Len(ids) # C.b THEN "a training batch contains padding"
  ELSE IF ids = <<>> THEN "a batch without any real row"
  ELSE IF \E k \in 1..C.b : Shp(Bt.rows[k]) # Shp(Bt.rows[1]) THEN "a batch mixes board shapes"
  ELSE IF \E k \in 1..C.b : ~Bt.real[k] /\ Bt.rows[k] \notin ToSet(ids) THEN "padding is not a copy of a real row of its batch"
  ELSE IF ~C.sharded /\ Cardinality(ToSet(ids)) # Len(ids) THEN "a record appears twice in one batch"
  ELSE IF ~C.sharded /\ ToSet(ids) \cap seen # {} THEN "a record is delivered twice in one epoch"
  ELSE IF ToSet(ids) \ ToSet(C.all) # {} THEN "a record that does not belong to this stream is delivered"
  ELSE IF Bt.last # (l = Len(C.batches)) THEN "the end-of-epoch mark is not exactly on the last batch"
  ELSE IF C.budget > 0 /\ l > C.budget THEN "more batches than the epoch budget"
  ELSE IF C.fifo /\ ~\E k \in 1..Len(FifoRows) :
             /\ SubSeq(FifoRows[k].rows, 1, FifoRows[k].n) = ids
             /\ FifoRows[k].n = C.b => k = l      \* incomplete shapes flush in any order
  THEN "an unshuffled stream is not batched in source order"
  ELSE IF C.window /\ NShapes = 1
          /\ \E k \in 1..Len(ids) : Index(ids[k]) >= C.w + (l - 1) * C.b + k
  THEN "a record runs ahead of its source position by more than the window"
  ELSE IF C.window /\ NShapes > 1
          /\ \E k \in 1..Len(ids) : Index(ids[k]) >= C.w + l * C.b + (NShapes - 1) * (C.b - 1)
  THEN "a record runs ahead of its source position by more than the window"
  ELSE ""

Step ==
  /\ err = "" /\ l <= Len(C.batches)
  /\ err' = BatchErr
  /\ seen' = seen \cup ToSet(RealIds(Bt))
  /\ left' = left
  /\ l' = l + 1
  /\ UNCHANGED <<vars, cid>>

Missing(s) == Cardinality({i \in ToSet(C.all) : Shp(i) = s} \ seen)

\* A rank-sharded stream repeats its shard: the rows of one shape, in order of
\* delivery, are one permutation of the shard's records of that shape after another.
PlanRows == [k \in 1..Len(C.batches) |-> C.batches[k].rows]

EndErr ==
  IF ~C.ended THEN "the epoch did not end"
  ELSE IF C.budget > 0 /\ (C.sharded \/ C.enough) /\ Len(C.batches) # C.budget
  THEN "the epoch does not have exactly the budgeted number of batches"
  ELSE IF C.fifo /\ Len(FifoRows) # Len(C.batches) THEN "an unshuffled stream has the wrong number of batches"
  ELSE IF C.sharded /\ \E s \in AllShapes :
            LET n == Cardinality({i \in ToSet(C.all) : Shp(i) = s})
                rows == SelectSeq(FlattenSeq(PlanRows), LAMBDA i : Shp(i) = s)
            IN \E k \in 1..Len(rows) : \E j \in (((k - 1) \div n) * n + 1)..(k - 1) : rows[j] = rows[k]
  THEN "a record is repeated before every record was used"
  ELSE IF ~C.sharded /\ ~(C.budget > 0 /\ Len(C.batches) = C.budget)
          /\ \E s \in AllShapes : IF C.train THEN Missing(s) >= C.b ELSE Missing(s) # 0
  THEN IF C.train THEN "a whole batch of records was left out of the epoch"
       ELSE "evaluation left out a record"
  ELSE IF C.again # <<>> /\ C.again # PlanRows THEN "the same seed and epoch give different plans"
  ELSE IF \E k \in 1..Len(C.others) : C.others[k] = PlanRows
  THEN "shuffling repeats the order of another epoch or seed"
  ELSE ""

Judge ==
  /\ err = "" /\ l = Len(C.batches) + 1
  /\ l' = l + 1
  /\ err' = EndErr
  /\ UNCHANGED <<vars, cid, seen, left>>

TNext == Step \/ Judge

Report == err # "" => PrintT("@@" \o ToJson([case |-> cid, step |-> l - 1, clause |-> err]))
=============================================================================
