---------------------------- MODULE ReservoirTrace ----------------------------
(***************************************************************************)
(* Recorded executions of the real shuffle buffers, checked step by step   *)
(* against Reservoir.  A case groups variants: the same item stream pushed *)
(* through different entry points, chunkings, snapshot points and          *)
(* implementations; all of them must emit the same sequence.               *)
(* Each variant is a list of events                                        *)
(*   offer   items, emitted, stats     drain  emitted, stats               *)
(*   rebuild (a new object restored from a snapshot taken just before)     *)
(***************************************************************************)
EXTENDS Reservoir, IOUtils

Cases == JsonDeserialize(IOEnv.TRACE_FILE)

VARIABLES cid, vid, l, err, peak

tvars == <<vars, cid, vid, l, err, peak>>

Case == Cases[cid]
Var == Case.variants[vid]
Ev == Var.events[l]
cap == Case.cap
maxb == Case.max_bytes
sz == Case.sizes

TSum(s) == FoldSeq(LAMBDA x, acc : acc + sz[x], 0, s)
TMust(s, i) == s # <<>> /\ (Len(s) >= cap \/ (maxb # 0 /\ TSum(s) + sz[i] > maxb))

IndexOf(s, x) == IF \E k \in 1..Len(s) : s[k] = x
                 THEN CHOOSE k \in 1..Len(s) : s[k] = x ELSE 0

\* Replay one offer call: which residents left is read from the record.
RECURSIVE Replay(_, _, _, _)
Replay(s, items, em, pk) ==
  IF items = <<>> THEN [s |-> s, rest |-> em, ok |-> TRUE, why |-> "", peak |-> pk]
  ELSE IF TMust(s, items[1])
  THEN IF em = <<>> THEN [s |-> s, rest |-> em, ok |-> FALSE, why |-> "buffer exceeded its limit", peak |-> pk]
       ELSE LET k == IndexOf(s, em[1]) IN
            IF k = 0 THEN [s |-> s, rest |-> em, ok |-> FALSE, why |-> "emitted an item that is not resident", peak |-> pk]
            ELSE Replay(Evict(s, k), items, Tail(em), pk)
  ELSE LET s2 == Append(s, items[1]) IN
       Replay(s2, Tail(items), em,
              [occ |-> IF Len(s2) > pk.occ THEN Len(s2) ELSE pk.occ,
               bytes |-> IF TSum(s2) > pk.bytes THEN TSum(s2) ELSE pk.bytes])

TInit ==
  /\ cid \in 1..Len(Cases)
  /\ vid \in 1..Len(Cases[cid].variants)
  /\ l = 1
  /\ pos = 0 /\ slots = <<>> /\ out = <<>> /\ closed = FALSE
  /\ chunk = <<>> /\ snap = NONE /\ hist = <<>>
  /\ err = "" /\ peak = [occ |-> 0, bytes |-> 0]

StatsOk(st, s, o, p, pk) ==
  /\ st.offered = p /\ st.emitted = Len(o) /\ st.occupancy = Len(s)
  /\ st.peak_occupancy = pk.occ
  /\ Var.sized => st.resident_bytes = TSum(s) /\ st.peak_resident_bytes = pk.bytes

Offer ==
  /\ Ev.op = "offer"
  /\ LET r == Replay(slots, Ev.items, Ev.emitted, peak)
         p == pos + Len(Ev.items)
         o == out \o Ev.emitted
         sorted == Ev.items = [j \in 1..Len(Ev.items) |-> pos + j]
     IN /\ slots' = r.s /\ pos' = p /\ out' = o /\ peak' = r.peak
        /\ err' = IF closed THEN "a closed buffer accepted items"
                  ELSE IF ~sorted THEN "harness order"
                  ELSE IF ~r.ok THEN r.why
                  ELSE IF r.rest # <<>> THEN "emitted an item although nothing had to leave"
                  ELSE IF ~StatsOk(Ev.stats, r.s, o, p, r.peak) THEN "reported counters disagree with the contents"
                  ELSE ""
  /\ UNCHANGED <<closed>>

DrainEv ==
  /\ Ev.op = "drain"
  /\ out' = out \o Ev.emitted /\ slots' = <<>> /\ closed' = TRUE
  /\ err' = IF Len(Ev.emitted) # Len(slots) \/ ToSet(Ev.emitted) # ToSet(slots)
            THEN "the final flush is not exactly the residents"
            ELSE IF ~StatsOk(Ev.stats, <<>>, out \o Ev.emitted, pos, peak)
            THEN "reported counters disagree with the contents" ELSE ""
  /\ UNCHANGED <<pos, peak>>

Rebuild ==
  /\ Ev.op = "rebuild"
  /\ err' = IF StatsOk(Ev.stats, slots, out, pos, peak) /\ Ev.closed = closed THEN ""
            ELSE "a rebuilt buffer differs from the one that was saved"
  /\ UNCHANGED <<pos, slots, out, closed, peak>>

\* The case-level clauses, judged at the end of each variant.
FinalErr ==
  IF ~(Len(out) = pos /\ ToSet(out) = 1..pos) /\ closed
  THEN "some item was lost or emitted twice"
  ELSE IF \E k \in 1..Len(out) : out[k] >= cap + k THEN "an item ran ahead of the window"
  ELSE IF \E k \in 1..Len(Case.others) : Case.others[k] = out
  THEN "the order repeats for another seed, epoch or stream"
  ELSE IF Case.victims # <<>> /\ ToSet(Case.victims) # 1..cap
  THEN "some resident is never displaced first, whatever the seed"
  ELSE IF out # Case.expected THEN "the order depends on chunking, entry point, implementation or snapshots"
  ELSE ""

Step ==
  /\ err = "" /\ l <= Len(Var.events)
  /\ l' = l + 1
  /\ (Offer \/ DrainEv \/ Rebuild)
  /\ UNCHANGED <<cid, vid, chunk, snap, hist>>

Judge ==
  /\ err = "" /\ l = Len(Var.events) + 1
  /\ l' = l + 1
  /\ err' = FinalErr
  /\ UNCHANGED <<vars, cid, vid, peak>>

TNext == Step \/ Judge
TSpec == TInit /\ [][TNext]_tvars

Report ==
  err # "" => PrintT("@@" \o ToJson([case |-> cid, variant |-> Var.name, step |-> l - 1, clause |-> err]))
=============================================================================
