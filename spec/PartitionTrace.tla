---------------------------- MODULE PartitionTrace ----------------------------
(***************************************************************************)
(* Per-rank streams recorded from the real datasets, one process per rank. *)
(* A case: kind "replicated" or "sharded" or "map"; local; world;          *)
(*   all      ids of the data, cover (TRUE: shards cover all)              *)
(*   ref      batches of a single-rank run of the same global batch        *)
(*            (replicated: [rows, real, last, digs])                       *)
(*   ranks    per rank: [shard |-> ids it can read, bytes, files, smallest, *)
(*            batches,                                                     *)
(*            descs (one per batch), state |-> text, coord |-> text,       *)
(*            foreign |-> TRUE when another rank's position was refused]   *)
(*   budget                                                                *)
(* Sharded plans themselves are judged by EpochPlanTrace.                  *)
(***************************************************************************)
EXTENDS Partition, Json, IOUtils

Cases == JsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES cid, l, err
tvars == <<pvars, cid, l, err>>

C == Cases[cid]
R == C.ranks
W == 1..C.world
Count == Max({Len(R[r].batches) : r \in W})

TInit == Init /\ cid \in 1..Len(Cases) /\ l = 1 /\ err = ""

Rows(k) == Join([r \in W |-> R[r].batches[k].rows], C.world)
Real(k) == Join([r \in W |-> R[r].batches[k].real], C.world)
Digs(k) == Join([r \in W |-> R[r].batches[k].digs], C.world)

SizesErr(k) ==
  IF \E r \in W : Len(R[r].batches) < k THEN "ranks deliver different numbers of batches"
  ELSE IF \E r \in W : Len(R[r].batches[k].rows) # C.local THEN "a rank's batch does not have the configured number of rows"
  ELSE IF \E r \in W : R[r].batches[k].last # R[1].batches[k].last THEN "ranks disagree on the end of the epoch"
  ELSE IF C.kind # "map" /\ \E r \in W : R[r].descs[k] # R[1].descs[k] THEN "ranks disagree on the position they report"
  ELSE ""

ReplicatedErr(k) ==
  IF k > Len(C.ref) THEN "more batches than the single-rank run"
  ELSE IF Rows(k) # C.ref[k].rows \/ Real(k) # C.ref[k].real
  THEN "the ranks' rows together are not the global batch"
  ELSE IF C.kind = "replicated" /\ Digs(k) # C.ref[k].digs THEN "a rank delivers other data than the single-rank run for the same rows"
  ELSE IF R[1].batches[k].last # C.ref[k].last THEN "the end of the epoch differs from the single-rank run"
  ELSE ""

ShardErr(k) ==
  IF \E r \in W : \E j \in 1..C.local : R[r].batches[k].rows[j] \notin ToSet(R[r].shard)
  THEN "a rank delivers a record outside its shard" ELSE ""

Step ==
  /\ err = "" /\ l <= Count
  /\ l' = l + 1
  /\ err' = IF SizesErr(l) # "" THEN SizesErr(l)
            ELSE IF C.kind = "sharded" THEN ShardErr(l) ELSE ReplicatedErr(l)
  /\ UNCHANGED <<pvars, cid>>

Covered == UNION {ToSet(R[r].shard) : r \in W}
RealSeen == Join([r \in W |-> Join([k \in 1..Len(R[r].batches) |->
               SelectSeq([j \in 1..C.local |-> IF R[r].batches[k].real[j] THEN R[r].batches[k].rows[j] ELSE -1],
                         LAMBDA x : x # -1)], Len(R[r].batches))], C.world)

EndErr ==
  IF C.kind = "sharded" THEN
       IF \E q, r \in W : q < r /\ ToSet(R[q].shard) \cap ToSet(R[r].shard) # {} THEN "shards overlap"
       ELSE IF \E r \in W : Cardinality(ToSet(R[r].shard)) # Len(R[r].shard) THEN "a shard holds a record twice"
       ELSE IF C.cover /\ Covered # ToSet(C.all) THEN "no rank reads some of the records"
       ELSE IF C.balance /\ \E q, r \in W : R[r].files > 1 /\ R[r].bytes - R[r].smallest > R[q].bytes
       THEN "a rank stays heavier than another even without its smallest file"
       ELSE IF \E r \in W : Len(R[r].batches) # C.budget * C.epochs THEN "a rank does not deliver exactly the budgeted batches"
       ELSE IF \E r \in W : R[r].coord # R[1].coord THEN "ranks disagree on the position they report"
       ELSE IF \E r \in W : ~R[r].foreign THEN "a position saved on another rank was accepted"
       ELSE ""
  ELSE IF Len(C.ref) # Count THEN "fewer batches than the single-rank run"
  ELSE IF \E r \in W : R[r].state # R[1].state THEN "ranks save different positions of the same plan"
  ELSE IF C.eval /\ (ToSet(RealSeen) # ToSet(C.all) \/ Len(RealSeen) # Len(C.all))
  THEN "evaluation across ranks does not cover every record once"
  ELSE ""

Judge ==
  /\ err = "" /\ l = Count + 1
  /\ l' = l + 1
  /\ err' = EndErr
  /\ UNCHANGED <<pvars, cid>>

TNext == Step \/ Judge
Report == err # "" => PrintT("@@" \o ToJson([case |-> cid, step |-> l - 1, clause |-> err]))
=============================================================================
