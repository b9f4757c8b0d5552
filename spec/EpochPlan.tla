------------------------------- MODULE EpochPlan -------------------------------
(***************************************************************************)
(* How one pass over a record source becomes global batches.               *)
(*                                                                         *)
(* Records arrive in source order into a shuffle window of W records; any  *)
(* resident may leave when the window is full or the source is exhausted.  *)
(* Leaving records queue up by board shape; a full queue becomes a batch.  *)
(* Training drops the incomplete queues at the end; evaluation pads every  *)
(* incomplete queue (smallest shape code first) by repeating its records   *)
(* with the copies flagged.  A budget ends the epoch after that many       *)
(* batches.  A rank-sharded stream that runs dry before its budget starts  *)
(* another cycle over the same source and keeps its incomplete queues.     *)
(*                                                                         *)
(* Records are numbered in arrival order within a cycle; an item is the    *)
(* pair <<cycle, index>>.  ShapeOf[i] is the shape of record i.            *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC

CONSTANTS N, ShapeOf, W, B, Train, Budget, Sharded

ASSUME Sharded => Train /\ Budget > 0

Shapes == {ShapeOf[i] : i \in 1..N}

VARIABLES cycle, arrived, resident, queues, plan, done, emitted

vars == <<cycle, arrived, resident, queues, plan, done, emitted>>

Item(c, i) == <<c, i>>
EmptyQueues == [s \in Shapes |-> <<>>]

Init ==
  /\ cycle = 0 /\ arrived = 0 /\ resident = {} /\ queues = EmptyQueues
  /\ plan = <<>> /\ done = FALSE /\ emitted = <<>>

Arrive ==
  /\ ~done /\ arrived < N /\ Cardinality(resident) < W
  /\ arrived' = arrived + 1
  /\ resident' = resident \cup {Item(cycle, arrived + 1)}
  /\ UNCHANGED <<cycle, queues, plan, done, emitted>>

MustLeave == resident # {} /\ (Cardinality(resident) = W \/ arrived = N)

\* One resident leaves; when it completes a batch the batch is planned.
\* A full window displaces only when another record is arriving.
Emit ==
  /\ ~done /\ MustLeave
  /\ \E x \in resident :
       LET s == ShapeOf[x[2]]
           q == Append(queues[s], x)
           full == Len(q) = B
           spent == Budget > 0 /\ Len(plan) + 1 = Budget
       IN /\ resident' = IF full /\ spent THEN {} ELSE resident \ {x}
          /\ emitted' = Append(emitted, x)
          /\ plan' = IF full
                     THEN Append(plan, [rows |-> q, real |-> [k \in 1..B |-> TRUE], last |-> spent])
                     ELSE plan
          /\ queues' = IF full /\ spent THEN EmptyQueues
                       ELSE [queues EXCEPT ![s] = IF full THEN <<>> ELSE q]
          /\ done' = (full /\ spent)
  /\ UNCHANGED <<cycle, arrived>>

Dry == ~done /\ arrived = N /\ resident = {}

MarkLast(p) == IF p = <<>> THEN p ELSE [p EXCEPT ![Len(p)].last = TRUE]

Recycle ==
  /\ Dry /\ Sharded /\ Len(plan) < Budget
  /\ cycle' = cycle + 1 /\ arrived' = 0
  /\ UNCHANGED <<resident, queues, plan, done, emitted>>

\* Training: what does not fill a batch is dropped, the last batch is marked.
FinishTrain ==
  /\ Dry /\ ~Sharded /\ Train
  /\ done' = TRUE /\ queues' = EmptyQueues /\ plan' = MarkLast(plan)
  /\ UNCHANGED <<cycle, arrived, resident, emitted>>

Pad(q) == [rows |-> [k \in 1..B |-> q[((k - 1) % Len(q)) + 1]],
           real |-> [k \in 1..B |-> k <= Len(q)]]

FlushEval ==
  /\ Dry /\ ~Train
  /\ LET left == {s \in Shapes : queues[s] # <<>>} IN
     IF left = {} THEN /\ done' = TRUE /\ plan' = MarkLast(plan) /\ UNCHANGED queues
     ELSE LET s == Min(left)
              p == Pad(queues[s])
              spent == Budget > 0 /\ Len(plan) + 1 = Budget
              final == Cardinality(left) = 1 \/ spent
          IN /\ plan' = Append(plan, [rows |-> p.rows, real |-> p.real, last |-> final])
             /\ queues' = IF final THEN EmptyQueues ELSE [queues EXCEPT ![s] = <<>>]
             /\ done' = final
  /\ UNCHANGED <<cycle, arrived, resident, emitted>>

Next == Arrive \/ Emit \/ Recycle \/ FinishTrain \/ FlushEval
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
Rows(p) == FlattenSeq([k \in 1..Len(p) |-> p[k].rows])
RealRows(b) == SelectSeq([k \in 1..Len(b.rows) |-> IF b.real[k] THEN b.rows[k] ELSE <<0, 0>>],
                         LAMBDA x : x # <<0, 0>>)
AllReal(p) == FlattenSeq([k \in 1..Len(p) |-> RealRows(p[k])])
NoDup(s) == Cardinality(ToSet(s)) = Len(s)

AtMostOnce == NoDup(AllReal(plan))

Homogeneous == \A k \in 1..Len(plan) : Cardinality({ShapeOf[x[2]] : x \in ToSet(plan[k].rows)}) = 1

FullBatches == \A k \in 1..Len(plan) : Len(plan[k].rows) = B

OnlyEvalPads == Train => \A k \in 1..Len(plan) : \A j \in 1..B : plan[k].real[j]

PaddingIsCopy ==
  \A k \in 1..Len(plan) : \A j \in 1..B :
     ~plan[k].real[j] => plan[k].rows[j] \in ToSet(RealRows(plan[k]))

LastIsLast == \A k \in 1..Len(plan) : plan[k].last => k = Len(plan) /\ done
LastMarked == done /\ plan # <<>> => plan[Len(plan)].last

WithinBudget == Budget > 0 => Len(plan) <= Budget

\* A record is never dropped silently: training leaves fewer than a batch per
\* shape behind, evaluation nothing, unless the budget ended the epoch.
Delivered(c) == {x \in ToSet(AllReal(plan)) : x[1] = c}
Spent == Budget > 0 /\ Len(plan) = Budget
Leftover ==
  done /\ ~Spent =>
    \A s \in Shapes :
      LET missing == {i \in 1..N : ShapeOf[i] = s} \ {x[2] : x \in Delivered(0)} IN
      IF Train THEN Cardinality(missing) < B ELSE missing = {}

\* A later cycle starts only after every record of the earlier one was used.
CycleOrder ==
  \A x \in ToSet(AllReal(plan)) :
    x[1] > 0 => \A s \in Shapes :
      Cardinality({i \in 1..N : ShapeOf[i] = s} \ {y[2] : y \in Delivered(x[1] - 1)}) < B

\* A record runs ahead of its arrival by less than the window.
Ahead == \A k \in 1..Len(emitted) : emitted[k][1] * N + emitted[k][2] < W + k
\* ... which bounds how early it can appear in the plan, in batches.
PlanAhead ==
  \A k \in 1..Len(plan) : \A x \in ToSet(plan[k].rows) :
     x[1] * N + x[2] < W + k * B + (Cardinality(Shapes) - 1) * (B - 1)
FifoPlan ==
  W = 1 => \A s \in Shapes : LET seq == SelectSeq(AllReal(plan), LAMBDA x : ShapeOf[x[2]] = s)
           IN \A a, b \in 1..Len(seq) : a < b => seq[a][1] * N + seq[a][2] < seq[b][1] * N + seq[b][2]
=============================================================================
