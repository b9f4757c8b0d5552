------------------------------- MODULE Partition -------------------------------
(***************************************************************************)
(* Two ways to split a stream over ranks.                                  *)
(*                                                                         *)
(* Replicated: every rank plans the same global batch and takes its slice. *)
(* Sharded: files go to ranks, largest first; the first World files one    *)
(* each, every later file to the least loaded rank.                        *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC

CONSTANTS Sizes, World, Local

Files == 1..Len(Sizes)
Ranks == 1..World

VARIABLES todo, shard
pvars == <<todo, shard>>

Sum(S) == FoldSet(LAMBDA f, acc : acc + Sizes[f], 0, S)
Load(r) == Sum(shard[r])

Init == todo = Files /\ shard = [r \in Ranks |-> {}]

Heaviest(f) == \A g \in todo : Sizes[g] < Sizes[f] \/ (Sizes[g] = Sizes[f] /\ g >= f)

Assign ==
  /\ todo # {}
  /\ LET f == CHOOSE x \in todo : Heaviest(x)
         used == Cardinality(Files \ todo)
     IN \E r \in Ranks :
          /\ IF used < World THEN shard[r] = {} ELSE \A q \in Ranks : Load(r) <= Load(q)
          /\ shard' = [shard EXCEPT ![r] = @ \cup {f}]
          /\ todo' = todo \ {f}

Next == Assign
Spec == Init /\ [][Next]_pvars

Disjoint == \A q, r \in Ranks : q # r => shard[q] \cap shard[r] = {}
Complete == todo = {} => UNION {shard[r] : r \in Ranks} = Files
NoneEmpty == todo = {} /\ Len(Sizes) >= World => \A r \in Ranks : shard[r] # {}
Balanced == \A q, r \in Ranks :
  Cardinality(Files \ todo) >= World /\ Cardinality(shard[q]) > 1
     => Load(q) - Min({Sizes[f] : f \in shard[q]}) <= Load(r)

\* ---- slices of a replicated global batch
Slice(rows, r) == SubSeq(rows, (r - 1) * Local + 1, r * Local)
RECURSIVE Join(_, _)
Join(parts, k) == IF k = 0 THEN <<>> ELSE Join(parts, k - 1) \o parts[k]
SlicesPartition ==
  LET rows == [k \in 1..(World * Local) |-> k]
  IN Join([r \in Ranks |-> Slice(rows, r)], World) = rows
=============================================================================
