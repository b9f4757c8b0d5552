------------------------------ MODULE Reservoir ------------------------------
(***************************************************************************)
(* The bounded shuffle buffer behind every streaming dataset.              *)
(*                                                                         *)
(* Items 1..N arrive in order.  An arriving item first displaces resident  *)
(* items while the buffer is full (Cap items) or while the item does not   *)
(* fit into MaxBytes; which resident leaves is arbitrary (the code uses a  *)
(* counter-based generator).  The last resident moves into the hole.  At   *)
(* the end the rest leaves in an arbitrary order and the buffer closes.    *)
(* A snapshot may be taken between calls, and the buffer may be thrown     *)
(* away and rebuilt from the last snapshot (Restore): then the consumer    *)
(* also goes back to what it had received at the snapshot.                 *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, SequencesExt, Json, TLC

CONSTANTS N, Cap, MaxBytes, Size, MaxChunk, MaxSnaps, Gen

NONE == [none |-> TRUE]

VARIABLES pos,      \* items admitted so far (also the source cursor)
          slots,    \* residents, a sequence of item numbers
          out,      \* everything emitted, in order
          closed,
          chunk,    \* items of the running offer call not yet admitted
          snap,     \* the last snapshot
          hist      \* calls made (only recorded when Gen)

vars == <<pos, slots, out, closed, chunk, snap, hist>>

SumSize(s) == FoldSeq(LAMBDA x, acc : acc + Size[x], 0, s)
Fits(s, i) == MaxBytes = 0 \/ SumSize(s) + Size[i] <= MaxBytes
MustEvict(s, i) == s # <<>> /\ (Len(s) >= Cap \/ ~Fits(s, i))

\* Remove slot k, moving the last slot into the hole.
Evict(s, k) ==
  LET t == [s EXCEPT ![k] = s[Len(s)]] IN SubSeq(t, 1, Len(s) - 1)

Record(op) == hist' = IF Gen THEN Append(hist, op) ELSE hist

Init ==
  /\ pos = 0 /\ slots = <<>> /\ out = <<>> /\ closed = FALSE
  /\ chunk = <<>> /\ snap = NONE /\ hist = <<>>

\* A call offering the next n items in one chunk.
OfferCall(n) ==
  /\ chunk = <<>> /\ ~closed /\ pos + n <= N
  /\ chunk' = [j \in 1..n |-> pos + j]
  /\ Record([op |-> "offer", n |-> n])
  /\ UNCHANGED <<pos, slots, out, closed, snap>>

EvictOne ==
  /\ chunk # <<>> /\ MustEvict(slots, Head(chunk))
  /\ \E k \in IF Gen THEN {1} ELSE 1..Len(slots) :
       /\ out' = Append(out, slots[k])
       /\ slots' = Evict(slots, k)
  /\ UNCHANGED <<pos, closed, chunk, snap, hist>>

Admit ==
  /\ chunk # <<>> /\ ~MustEvict(slots, Head(chunk))
  /\ slots' = Append(slots, Head(chunk))
  /\ pos' = Head(chunk)
  /\ chunk' = Tail(chunk)
  /\ UNCHANGED <<out, closed, snap, hist>>

Drain ==
  /\ chunk = <<>> /\ ~closed /\ pos = N
  /\ \E p \in IF Gen THEN {slots} ELSE SetToSeqs(ToSet(slots)) : out' = out \o p
  /\ slots' = <<>> /\ closed' = TRUE
  /\ Record([op |-> "drain", n |-> 0])
  /\ UNCHANGED <<pos, chunk, snap>>

Snapshot ==
  /\ chunk = <<>>
  /\ Len(SelectSeq(hist, LAMBDA h : h.op = "snap")) < MaxSnaps
  /\ snap' = [pos |-> pos, slots |-> slots, out |-> out, closed |-> closed]
  /\ Record([op |-> "snap", n |-> 0])
  /\ UNCHANGED <<pos, slots, out, closed, chunk>>

Restore ==
  /\ snap # NONE
  /\ Len(SelectSeq(hist, LAMBDA h : h.op = "restore")) < MaxSnaps
  /\ pos' = snap.pos /\ slots' = snap.slots /\ out' = snap.out
  /\ closed' = snap.closed /\ chunk' = <<>>
  /\ Gen => chunk = <<>>
  /\ Record([op |-> "restore", n |-> 0])
  /\ UNCHANGED snap

Next ==
  \/ \E n \in 0..MaxChunk : OfferCall(n) /\ (Gen => n > 0)
  \/ EvictOne \/ Admit \/ Drain \/ Snapshot \/ Restore

Spec == Init /\ [][Next]_vars /\ WF_vars(EvictOne) /\ WF_vars(Admit)

----------------------------------------------------------------------------
\* Every admitted item is in exactly one place.
ExactlyOnce ==
  LET all == out \o slots IN
  /\ Len(all) = pos
  /\ ToSet(all) = 1..pos

Bounded ==
  /\ Len(slots) <= Cap
  /\ MaxBytes # 0 => SumSize(slots) <= MaxBytes

\* An item can run ahead of its source position by less than the capacity.
Displacement == \A k \in 1..Len(out) : out[k] < Cap + k

ClosedIsEmpty == closed => slots = <<>> /\ Len(out) = N

FifoWhenCapacityOne == Cap = 1 => \A k \in 1..Len(out) : out[k] = k

\* A snapshot is itself a consistent cursor.
SnapConsistent ==
  snap # NONE => /\ Len(snap.out) + Len(snap.slots) = snap.pos
                 /\ ToSet(snap.out \o snap.slots) = 1..snap.pos

\* Nothing emitted is ever withdrawn except by going back to the snapshot.
EmissionStable ==
  [][IsPrefix(out, out') \/ (snap # NONE /\ out' = snap.out)]_vars

Complete == Gen /\ closed /\ chunk = <<>>
PrintDone == Complete => PrintT("@@" \o ToJson(hist))
=============================================================================
