----------------------------- MODULE SamplerTrace -----------------------------
(***************************************************************************)
(* Orders recorded from the real sampler.  A case has                      *)
(*   length, world, shuffle                                                *)
(*   ranks    per rank, per epoch: the yielded indices                     *)
(*   lens     per rank: the announced length at the start of an epoch      *)
(*   alone    per epoch: what a single rank yields                         *)
(*   other    per epoch: what a single rank yields under another seed      *)
(***************************************************************************)
EXTENDS Naturals, Sequences, SequencesExt, FiniteSets, Json, IOUtils, TLC

Cases == JsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES cid, l, err
tvars == <<cid, l, err>>

C == Cases[cid]
Local == C.length \div C.world
W == 1..C.world

TInit == cid \in 1..Len(Cases) /\ l = 1 /\ err = ""

Global(e) == [k \in 1..(Local * C.world) |-> C.ranks[((k - 1) % C.world) + 1][e][((k - 1) \div C.world) + 1]]

EpochErr(e) ==
  IF \E r \in W : Len(C.ranks[r][e]) # Local THEN "a rank does not yield its share of the epoch"
  ELSE IF \E r \in W : C.lens[r][e] # Local THEN "the announced length is not the share of the epoch"
  ELSE IF Len(C.alone[e]) # C.length THEN "a single rank does not yield every record"
  ELSE LET g == Global(e) IN
  IF \E k \in DOMAIN g : g[k] \notin 0..(C.length - 1) THEN "an index outside the data set"
  ELSE IF Cardinality(ToSet(g)) # Len(g) \/ Cardinality(ToSet(C.alone[e])) # C.length THEN "a record is yielded twice in an epoch"
  ELSE IF ~C.shuffle /\ \E k \in 1..C.length : C.alone[e][k] # k - 1 THEN "an unshuffled epoch is not in data set order"
  ELSE IF \E k \in DOMAIN g : g[k] # C.alone[e][k] THEN "the order depends on the number of ranks"
  ELSE IF C.shuffle /\ C.length >= 9 /\ \E f \in 1..(e - 1) : C.alone[f] = C.alone[e] THEN "two epochs have the same order"
  ELSE IF C.shuffle /\ C.length >= 9 /\ C.other[e] = C.alone[e] THEN "two seeds give the same order"
  ELSE ""

Step ==
  /\ err = "" /\ l <= Len(C.alone)
  /\ l' = l + 1 /\ err' = EpochErr(l)
  /\ UNCHANGED cid
TNext == Step
Report == err # "" => PrintT("@@" \o ToJson([case |-> cid, step |-> l - 1, clause |-> err]))
=============================================================================
