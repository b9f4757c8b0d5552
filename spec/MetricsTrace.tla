----------------------------- MODULE MetricsTrace -----------------------------
(* Judges reports of the real evaluation.  A case is the rows as a single
   process reads them (integer logits and targets, so that every counting metric
   is computed here; scaled contributions for the others), the global batches,
   and what was reported, scaled alike. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt, FiniteSetsExt
Cases == JsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES case, step, err
vars == <<case, step, err>>
TInit == case \in 1..Len(Cases) /\ step = 0 /\ err = ""

C == Cases[case]
Abs(x) == IF x < 0 THEN -x ELSE x
Scale == 100000

ArgMax(s) == CHOOSE i \in 1..Len(s): \A j \in 1..Len(s): s[j] <= s[i]
Best(s, k) == {i \in 1..Len(s): Cardinality({j \in 1..Len(s): s[j] > s[i]}) < k}
Sign(x) == IF x >= 0 THEN 1 ELSE -1
Won(row) == IF Len(row.vl) = 1
            THEN row.vl[1] * (row.vt[1] - row.vt[2]) >= 0
            ELSE (row.vl[1] >= row.vl[2]) <=> (row.vt[1] >= row.vt[2])
Drawn(row) == (ArgMax(row.vl) = 3) <=> (ArgMax(row.vt) = 3)
Count(row, kind) ==
  CASE kind = "best" -> IF ArgMax(row.pl) = ArgMax(row.pt) THEN Scale ELSE 0
    [] kind = "top2" -> (Cardinality(Best(row.pl, 2) \cap Best(row.pt, 2)) * Scale) \div 2
    [] kind = "top3" -> (Cardinality(Best(row.pl, 3) \cap Best(row.pt, 3)) * Scale) \div 3
    [] kind = "win" -> IF Won(row) THEN Scale ELSE 0
    [] kind = "draw" -> IF Drawn(row) THEN Scale ELSE 0
Row(i) == C.rows[i]
Mean(batch, F(_)) == FoldLeft(LAMBDA a, i: a + F(i), 0, batch) \div Len(batch)
(* the regulariser is the square of a mean over cells, not a mean over rows *)
Reg(batch) == LET s == FoldLeft(LAMBDA a, i: a + Row(i).logits, 0, batch)
                  n == FoldLeft(LAMBDA a, i: a + Row(i).cells, 0, batch)
                  m == s \div n                        \* scaled by 10^4
              IN (m * m) \div 1000
Value(metric, batch) ==
  CASE metric.kind = "mean" -> Mean(batch, LAMBDA i: Row(i).parts[metric.field])
    [] metric.kind = "reg" -> Reg(batch)
    [] metric.kind = "total" ->
         (metric.w[1] * (Mean(batch, LAMBDA i: Row(i).parts[metric.field]) \div 10)
          + metric.w[2] * (Mean(batch, LAMBDA i: Row(i).parts[metric.second]) \div 10)
          + metric.w[3] * (Reg(batch) \div 10)) \div 100
    [] OTHER -> Mean(batch, LAMBDA i: Count(Row(i), metric.kind))
Expected(metric) ==
  IF metric.kind = "max"
  THEN Max({Row(i).parts[metric.field]: i \in UNION {ToSet(C.batches[b]): b \in 1..Len(C.batches)}})
  ELSE FoldLeft(LAMBDA a, k: a + C.weights[k] * Value(metric, C.batches[k]), 0, [k \in 1..Len(C.batches) |-> k])
       \div FoldLeft(LAMBDA a, k: a + k, 0, C.weights)
Close(metric, got) == LET want == Expected(metric)
                      IN Abs(got - want) <= metric.slack + Abs(want) \div 4000

Judge(k) ==
  LET m == C.metrics[k] IN
  IF m.name \notin DOMAIN C.report THEN "the report lacks " \o m.name
  ELSE IF Len(C.report[m.name]) # 1 THEN m.name \o " is not a finite number"
  ELSE IF ~Close(m, C.report[m.name][1]) THEN m.name \o " is not that of the evaluated rows"
  ELSE ""
SumSeq(s) == FoldLeft(LAMBDA a, x: a + x, 0, s)
Entries == IF C.entries # SumSeq([b \in 1..Len(C.batches) |-> Len(C.batches[b])]) THEN "the number of entries is wrong" ELSE ""

TNext == /\ err = "" /\ step <= Len(C.metrics)
         /\ step' = step + 1
         /\ err' = IF step = 0 THEN (IF C.entries < 0 THEN "" ELSE Entries) ELSE Judge(step)
         /\ case' = case
Report == err = "" \/ PrintT("@@" \o ToJson([case |-> case, step |-> step, clause |-> err]))
=============================================================================
