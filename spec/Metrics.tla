------------------------------- MODULE Metrics -------------------------------
(* Evaluation over several ranks.  Every rank forwards its slice of each global
   batch, of which only some rows are real (the last batch is padded), or has
   no batch left and replays one that does not count.  The ranks' sums and
   counts are reduced batch by batch, and the report is the mean of the batch
   values, each as often as ranks had a batch there; maxima are carried to the end. *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS World, Local, Rows, Vals, Sharded

(* Rows: number of real rows, dealt to the ranks either as slices of global
   batches or, when Sharded, as each rank's own batches. *)
VARIABLES val,      \* value of every row
          deal,     \* rows each rank owns when Sharded
          at,       \* batch every rank works on
          part,     \* <<sum, count, max>> offered for the current batch, or <<>>
          acc,      \* numerator and denominator of the sum of batch values, and number of batches
          top, done
vars == <<val, deal, at, part, acc, top, done>>

Ranks == 0..World - 1
Batch == World * Local
Sum(f, S) == LET RECURSIVE Add(_)
                 Add(T) == IF T = {} THEN 0 ELSE LET x == CHOOSE y \in T: TRUE IN f[x] + Add(T \ {x})
             IN Add(S)
Max(S) == CHOOSE x \in S: \A y \in S: y <= x

Owned(r) == {i \in 1..Rows: deal[i] = r}
Nth(S, k) == CHOOSE i \in S: Cardinality({j \in S: j < i}) = k - 1
Batches(r) == IF Sharded THEN (Cardinality(Owned(r)) + Local - 1) \div Local
              ELSE (Rows + Batch - 1) \div Batch
Total == Max({Batches(r): r \in Ranks})
Real(r, b) ==                       \* the real rows of rank r's part of batch b
  IF b > Batches(r) THEN {}
  ELSE IF Sharded THEN {Nth(Owned(r), k): k \in {k \in (b - 1) * Local + 1..b * Local: k <= Cardinality(Owned(r))}}
  ELSE {i \in (b - 1) * Batch + r * Local + 1..(b - 1) * Batch + (r + 1) * Local: i <= Rows}
Of(b) == UNION {Real(r, b): r \in Ranks}
Holding(b) == {r \in Ranks: b <= Batches(r)}   \* ranks that have a batch there, possibly all padding

Init == /\ val \in [1..Rows -> Vals]
        /\ deal \in IF Sharded THEN [1..Rows -> Ranks] ELSE {[i \in 1..Rows |-> 0]}
        /\ at = 1 /\ part = [r \in Ranks |-> <<>>] /\ acc = <<0, 1, 0>> /\ top = -1 /\ done = FALSE

Offer(r) ==
  /\ ~done /\ at <= Total /\ part[r] = <<>>
  /\ LET rows == Real(r, at) IN
     part' = [part EXCEPT ![r] = <<Sum(val, rows), Cardinality(rows), IF rows = {} THEN -1 ELSE Max({val[i]: i \in rows})>>]
  /\ UNCHANGED <<val, deal, at, acc, top, done>>

Reduce ==
  /\ ~done /\ at <= Total /\ \A r \in Ranks: part[r] # <<>>
  /\ LET s == Sum([r \in Ranks |-> part[r][1]], Ranks)
         n == Sum([r \in Ranks |-> part[r][2]], Ranks)
         k == Cardinality(Holding(at))
     IN acc' = <<acc[1] * n + k * s * acc[2], acc[2] * n, acc[3] + k>>
  /\ top' = Max({top} \cup {part[r][3]: r \in Ranks})
  /\ at' = at + 1 /\ part' = [r \in Ranks |-> <<>>]
  /\ UNCHANGED <<val, deal, done>>

Finish == ~done /\ at > Total /\ done' = TRUE /\ UNCHANGED <<val, deal, at, part, acc, top>>
Idle == done /\ UNCHANGED vars
Next == (\E r \in Ranks: Offer(r)) \/ Reduce \/ Finish \/ Idle
Spec == Init /\ [][Next]_vars

(* What the report means, without ranks, slices or padding. *)
Definition == LET RECURSIVE Go(_)
                  Go(b) == IF b = 0 THEN <<0, 1>>
                           ELSE LET rest == Go(b - 1)
                                    n == Cardinality(Of(b))
                                IN <<rest[1] * n + Cardinality(Holding(b)) * Sum(val, Of(b)) * rest[2], rest[2] * n>>
              IN Go(Total)
MeanRight == done => /\ acc[1] * Definition[2] = Definition[1] * acc[2] /\ acc[3] = Sum([r \in Ranks |-> Batches(r)], Ranks)
MaxRight == done => top = Max({val[i]: i \in 1..Rows})
NeverEmpty == \A b \in 1..Total: Of(b) # {}
EveryRow == /\ UNION {Of(b): b \in 1..Total} = 1..Rows
            /\ \A a, b \in 1..Total: a # b => Of(a) \cap Of(b) = {}
=============================================================================
