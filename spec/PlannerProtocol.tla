---------------------------- MODULE PlannerProtocol ----------------------------
(***************************************************************************)
(* The planner's transaction protocol: cursors, token chains, lookahead,   *)
(* epoch changes with uncommitted tokens, prefetch, and the iterator that  *)
(* publishes batches.  Checked to refine PlanTransaction.                  *)
(*                                                                         *)
(* Lens[e]   batches of epoch e                                            *)
(* Known[e]  TRUE: the planner knows at planning time that a batch is the  *)
(*           last (budget, evaluation); FALSE: only a further plan attempt *)
(*           reveals it and the token is finalized then                    *)
(* Ahead     prefetched batches beyond the lookahead                       *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, SequencesExt, FiniteSets, TLC, Json

CONSTANTS Lens, Known, Ahead, MaxOps, Gen

Epochs == Len(Lens)
RECURSIVE SumLens(_)
SumLens(e) == IF e = 0 THEN 0 ELSE Lens[e] + SumLens(e - 1)
Total == SumLens(Epochs)

NONE == [none |-> TRUE]

VARIABLES
  p,      \* planner position [e, i, fin]; i batches of epoch e planned
  y,      \* yield end of the chain: [st, dg]
  c,      \* committed end of the chain: [st, dg]
  it,     \* iterator: NONE or [queue |-> planned tokens not yet published, fin |-> epoch completely planned]
  toks,   \* published, uncommitted tokens
  seen,   \* every token ever published
  disk,   \* saved committed end, or NONE
  ops     \* operations so far (generation) or their number

vars == <<p, y, c, it, toks, seen, disk, ops>>

Start(e) == [e |-> e, i |-> 0, fin |-> FALSE]
StartDg(e) == <<[start |-> e]>>
Index(st) == SumLens(st.e - 1) + st.i

Token(before, bdg, after, last) ==
  [e |-> after.e, i |-> after.i, bst |-> before, bdg |-> bdg,
   ast |-> after, adg |-> Append(bdg, [i |-> after.i, last |-> last]), last |-> last]

\* Plan one batch: [ok, p, y, tok]
PlanOne(pp, yy) ==
  IF pp.fin \/ pp.i = Lens[pp.e]
  THEN [ok |-> FALSE, p |-> [pp EXCEPT !.fin = TRUE], y |-> yy, tok |-> NONE]
  ELSE LET last == Known[pp.e] /\ pp.i + 1 = Lens[pp.e]
           np == [pp EXCEPT !.i = @ + 1, !.fin = last]
           t == Token(yy.st, yy.dg, np, last)
       IN [ok |-> TRUE, p |-> np, y |-> [st |-> np, dg |-> t.adg], tok |-> t]

\* A plan attempt that found nothing turns the latest token into the terminal one.
Finalize(q, pp, yy) ==
  LET t == q[Len(q)]
      f == Token(t.bst, t.bdg, [t.ast EXCEPT !.fin = TRUE], TRUE)
  IN [queue |-> [q EXCEPT ![Len(q)] = f], y |-> [st |-> f.ast, dg |-> f.adg]]

\* Plan until `want` tokens are queued or the epoch is known to be complete.
RECURSIVE Fill(_, _, _, _)
Fill(q, pp, yy, want) ==
  IF Len(q) >= want \/ (q # <<>> /\ q[Len(q)].last)
  THEN [queue |-> q, p |-> pp, y |-> yy]
  ELSE LET r == PlanOne(pp, yy) IN
       IF r.ok THEN Fill(Append(q, r.tok), r.p, r.y, want)
       ELSE LET f == Finalize(q, r.p, yy) IN [queue |-> f.queue, p |-> r.p, y |-> f.y]

Record(op) == ops' = IF Gen THEN Append(ops, op) ELSE ops
Room == ~Gen \/ Len(ops) < MaxOps

Init ==
  /\ p = Start(1) /\ y = [st |-> Start(1), dg |-> StartDg(1)] /\ c = y
  /\ it = NONE /\ toks = <<>> /\ seen = {} /\ disk = NONE /\ ops = <<>>

\* Fetch the next batch; a completely consumed iterator is replaced by a new
\* one, which begins the next epoch first.
Fetch ==
  /\ Room
  /\ LET over == it # NONE /\ it.queue = <<>>
         fresh == it = NONE \/ over
         begin == fresh /\ p.fin
         uncommitted == y.dg # c.dg
         e2 == p.e + 1
     IN
     /\ begin => e2 <= Epochs
     /\ LET p0 == IF begin THEN Start(e2) ELSE p
            y0 == IF begin THEN [st |-> p0, dg |-> StartDg(e2)] ELSE y
            c0 == IF begin /\ ~uncommitted THEN y0 ELSE c
            q0 == IF fresh THEN <<>> ELSE it.queue
            r == Fill(q0, p0, y0, 2 + Ahead)
            t == r.queue[1]
        IN /\ p' = r.p /\ y' = r.y /\ c' = c0
           /\ it' = [queue |-> Tail(r.queue)]
           /\ toks' = Append(toks, t)
           /\ seen' = IF Gen THEN {} ELSE seen \cup {t}
  /\ Record([op |-> "next", n |-> 0])
  /\ UNCHANGED disk

\* The checks of a commit, over any proposed token sequence.
RECURSIVE Accepts(_, _, _, _)
Accepts(ts, dg, st, complete) ==
  IF ts = <<>> THEN TRUE
  ELSE LET t == Head(ts)
           cross == complete /\ t.e = st.e + 1 /\ t.i = 1 /\ t.bdg = StartDg(t.e)
           dg0 == IF cross THEN t.bdg ELSE dg
           st0 == IF cross THEN t.bst ELSE st
       IN /\ t.bdg = dg0
          /\ t.e = st0.e /\ t.i = st0.i + 1
          /\ t.bst = st0
          /\ Accepts(Tail(ts), t.adg, t.ast, t.last)

Accept(ts) == ts # <<>> /\ Accepts(ts, c.dg, c.st, c.st.fin)

CommitSome(k) ==
  /\ Room
  /\ k \in 1..Len(toks)
  /\ Accept(SubSeq(toks, 1, k))
  /\ c' = [st |-> toks[k].ast, dg |-> toks[k].adg]
  /\ toks' = SubSeq(toks, k + 1, Len(toks))
  /\ Record([op |-> "commit", n |-> k])
  /\ UNCHANGED <<p, y, it, seen, disk>>

RollbackAll ==
  /\ Room
  /\ p' = c.st /\ y' = c /\ toks' = <<>> /\ it' = NONE
  /\ Record([op |-> "rollback", n |-> 0])
  /\ UNCHANGED <<c, seen, disk>>

SaveState ==
  /\ Room
  /\ disk' = c
  /\ Record([op |-> "save", n |-> 0])
  /\ UNCHANGED <<p, y, c, it, toks, seen>>

LoadState ==
  /\ Room
  /\ disk # NONE
  /\ c' = disk /\ p' = disk.st /\ y' = disk /\ toks' = <<>> /\ it' = NONE
  /\ Record([op |-> "load", n |-> 0])
  /\ UNCHANGED <<seen, disk>>

Next == Fetch \/ (\E k \in 1..Total : CommitSome(k)) \/ RollbackAll \/ SaveState \/ LoadState
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
Given == IF toks = <<>> THEN Index(c.st) ELSE Index(toks[Len(toks)].ast)

Abs == INSTANCE PlanTransaction WITH
         given <- Given, com <- Index(c.st),
         saved <- IF disk = NONE THEN -1 ELSE Index(disk.st)
Refines == Abs!ASpec

\* Every prefix of what was handed out can be committed ...
PrefixAccepted == \A k \in 1..Len(toks) : Accept(SubSeq(toks, 1, k))
\* ... and nothing else: no gap, no repetition, no reordering, nothing stale.
OthersRefused ==
  /\ \A a, b \in 1..Len(toks) : a # 1 => ~Accept(SubSeq(toks, a, b)) \/ a > b
  /\ \A a, b \in 1..Len(toks) : b # a + 1 => ~Accept(<<toks[a], toks[b]>>)
  /\ \A t \in seen : Accept(<<t>>) => /\ Index(t.ast) = Index(c.st) + 1
                                      /\ t.last = (t.i = Lens[t.e])
\* Tokens carry the truth about the epoch end.
LastExact == \A k \in 1..Len(toks) : toks[k].last = (toks[k].i = Lens[toks[k].e])
Consecutive ==
  \A k \in 1..Len(toks) : Index(toks[k].ast) = Index(c.st) + k
\* A committed position is never ahead of what was handed out.
CommittedGiven == Index(c.st) <= Given

Done == Gen /\ Len(ops) = MaxOps
PrintDone == Done => PrintT("@@" \o ToJson(ops))
=============================================================================
