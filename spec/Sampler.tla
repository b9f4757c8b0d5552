------------------------------- MODULE Sampler -------------------------------
(***************************************************************************)
(* The resumable sampler of a map-style dataset under a batching loader    *)
(* that may read ahead, the way the training loop drives it: records are   *)
(* yielded ahead of being staged (delivered as a batch), staged ahead of   *)
(* being committed.  Checked to refine PlanTransaction.                    *)
(*                                                                         *)
(* L      records of one epoch on this rank       B     batch size         *)
(* Keep   an incomplete last batch is delivered (otherwise dropped)        *)
(* Ahead  batches the loader fetches before they are asked for             *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, SequencesExt, FiniteSets, TLC, Json

CONSTANTS L, B, Keep, Ahead, Epochs, MaxOps, Gen

Ceil(n) == (n + B - 1) \div B
Per == IF Keep THEN Ceil(L) ELSE L \div B
Total == Epochs * Per
NONE == [none |-> TRUE]
Index(e, o) == e * Per + Ceil(o)

VARIABLES
  ye, yo,   \* yielded: epoch and records handed to the loader
  se, so,   \* staged: delivered to the training loop
  ce, co,   \* committed
  it,       \* iterator: NONE or the batches fetched ahead, <<first record, size>>
  toks,     \* staged, uncommitted: <<before epoch, before offset, after epoch, after offset>>
  got,      \* the last delivered batch <<epoch, first record, size>>
  broken,   \* staging was impossible
  disk, ops

vars == <<ye, yo, se, so, ce, co, it, toks, got, broken, disk, ops>>

Record(op) == ops' = IF Gen THEN Append(ops, op) ELSE ops
Room == ~Gen \/ Len(ops) < MaxOps

Init ==
  /\ ye = 0 /\ yo = 0 /\ se = 0 /\ so = 0 /\ ce = 0 /\ co = 0
  /\ it = NONE /\ toks = <<>> /\ got = <<0, 0, 0>> /\ broken = FALSE /\ disk = NONE /\ ops = <<>>

\* the loader collects batches until `want' are queued or the epoch is used up
RECURSIVE Fill(_, _, _)
Fill(q, o, want) ==
  IF Len(q) >= want \/ o = L THEN [q |-> q, o |-> o]
  ELSE LET n == IF L - o < B THEN L - o ELSE B IN
       IF n = B \/ Keep THEN Fill(Append(q, <<o, n>>), o + n, want)
       ELSE [q |-> q, o |-> L]

Fetch ==
  /\ Room
  /\ LET r1 == Fill(IF it = NONE THEN <<>> ELSE it.q, yo, 1 + Ahead)
         wrap == r1.q = <<>>
         r2 == IF wrap THEN Fill(<<>>, 0, 1 + Ahead) ELSE r1
         e2 == IF wrap THEN ye + 1 ELSE ye
         b == Head(r2.q)
         \* staging follows the yielded epoch, at most one behind
         s0 == IF e2 = se + 1 THEN 0 ELSE so
         can == e2 \in {se, se + 1} /\ s0 + b[2] <= r2.o
     IN
     /\ e2 < Epochs
     /\ ye' = e2 /\ yo' = r2.o
     /\ it' = [q |-> Tail(r2.q)]
     /\ got' = <<e2, b[1], b[2]>>
     /\ broken' = (broken \/ ~can)
     /\ se' = e2 /\ so' = s0 + b[2]
     /\ toks' = Append(toks, <<se, so, e2, s0 + b[2]>>)
  /\ Record([op |-> "next", n |-> 0])
  /\ UNCHANGED <<ce, co, disk>>

RECURSIVE Chain(_, _, _)
Chain(ts, e, o) == IF ts = <<>> THEN TRUE
                   ELSE LET t == Head(ts) IN t[1] = e /\ t[2] = o /\ Chain(Tail(ts), t[3], t[4])
Accept(ts) == ts # <<>> /\ Chain(ts, ce, co)

CommitSome(k) ==
  /\ Room /\ k \in 1..Len(toks) /\ Accept(SubSeq(toks, 1, k))
  /\ ce' = toks[k][3] /\ co' = toks[k][4]
  /\ toks' = SubSeq(toks, k + 1, Len(toks))
  /\ Record([op |-> "commit", n |-> k])
  /\ UNCHANGED <<ye, yo, se, so, it, got, broken, disk>>

RollbackAll ==
  /\ Room
  /\ ye' = ce /\ yo' = co /\ se' = ce /\ so' = co /\ toks' = <<>> /\ it' = NONE
  /\ Record([op |-> "rollback", n |-> 0])
  /\ UNCHANGED <<ce, co, got, broken, disk>>

SaveState ==
  /\ Room /\ disk' = <<ce, co>>
  /\ Record([op |-> "save", n |-> 0])
  /\ UNCHANGED <<ye, yo, se, so, ce, co, it, toks, got, broken>>

LoadState ==
  /\ Room /\ disk # NONE
  /\ ce' = disk[1] /\ co' = disk[2] /\ ye' = disk[1] /\ yo' = disk[2] /\ se' = disk[1] /\ so' = disk[2]
  /\ toks' = <<>> /\ it' = NONE
  /\ Record([op |-> "load", n |-> 0])
  /\ UNCHANGED <<got, broken, disk>>

Next == Fetch \/ (\E k \in 1..Total : CommitSome(k)) \/ RollbackAll \/ SaveState \/ LoadState
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
Given == Index(se, so)
Abs == INSTANCE PlanTransaction WITH
         given <- Given, com <- Index(ce, co), saved <- IF disk = NONE THEN -1 ELSE Index(disk[1], disk[2])
Refines == Abs!ASpec

\* what is delivered is exactly the next stretch of the epoch
InPlace == toks # <<>> =>
  /\ got[2] + got[3] = so /\ got[1] = se
  /\ got[2] = B * ((Given - 1) % Per)
NeverStuck == ~broken
Ordered == Index(ce, co) <= Given /\ (se < ye \/ so <= yo)
PrefixAccepted == \A k \in 1..Len(toks) : Accept(SubSeq(toks, 1, k))
OthersRefused ==
  /\ \A a \in 2..Len(toks) : ~Accept(SubSeq(toks, a, Len(toks)))
  /\ \A a, b \in 1..Len(toks) : b # a + 1 => ~Accept(<<toks[a], toks[b]>>)

Done == Gen /\ Len(ops) = MaxOps
PrintDone == Done => PrintT("@@" \o ToJson(ops))
=============================================================================
