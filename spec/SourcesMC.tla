------------------------------ MODULE SourcesMC ------------------------------
(***************************************************************************)
(* The readers as a transition system over all small file sets, and facts   *)
(* about mixing over all small proportions.                                 *)
(***************************************************************************)
EXTENDS Sources
CONSTANTS Files, Entries, Records, Quanta, Most, Longest
VARIABLES files, active, quantum, s
vars == <<files, active, quantum, s>>
Sizes == UNION {[1..n -> 0..Records] : n \in 0..Entries}
(* records are named <<file, entry, number>> *)
Named(sizes) == [f \in 1..Len(sizes) |-> [e \in 1..Len(sizes[f]) |-> [k \in 1..sizes[f][e] |-> <<f, e, k>>]]]
Init == /\ \E n \in 1..Files : \E sizes \in [1..n -> Sizes] : files = Named(sizes)
        /\ active \in 1..Files /\ quantum \in Quanta
        /\ s = Start(files, active)
Next == ~Done(s) /\ s' = Read(files, quantum, s) /\ UNCHANGED <<files, active, quantum>>
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

All == Flat([f \in 1..Len(files) |-> Flat(files[f])])
Of(q, f) == SelectSeq(q, LAMBDA r : r[1] = f)
IsPrefix(p, q) == Len(p) <= Len(q) /\ p = SubSeq(q, 1, Len(p))
FewOpen == Len(s.open) <= active /\ Cardinality({s.open[i].file : i \in 1..Len(s.open)}) = Len(s.open)
InFileOrder == \A f \in 1..Len(files) : IsPrefix(Of(s.out, f), Flat(files[f]))
TurnOpen == ~Done(s) => s.turn \in 1..Len(s.open) /\ s.used < quantum
Complete == Done(s) => Len(s.out) = Len(All)
NoneSkipped == \A f \in 1..Len(files) : Of(s.out, f) # <<>> => f < s.next
OneReaderIsPlain == active = 1 => IsPrefix(s.out, All)
Ends == <>Done(s)

(* mixing *)
Proportions == UNION {[1..n -> 1..Most] : n \in 1..3}
PlanFacts == \A ws \in Proportions :
   LET plan == Schedule(ws) T == Total(ws) n == Len(ws) IN
   /\ Len(plan) = T
   /\ \A c \in 1..n : Count(c, plan) = ws[c]
   /\ \A k \in 0..T, c \in 1..n : LET got == Count(c, SubSeq(plan, 1, k)) IN got * T - k * ws[c] \in (-T)..T   (* even *)
Lists == UNION {[1..n -> 0..Longest] : n \in 2..2}
Named2(lens) == [c \in 1..Len(lens) |-> [k \in 1..lens[c] |-> <<c, k>>]]
MixFacts == \A lens \in Lists, ws \in [1..2 -> 1..3], sync \in BOOLEAN :
   LET children == Named2(lens) got == Mix(children, [c \in 1..2 |-> <<ws[c], 1>>], sync) w == Weights([c \in 1..2 |-> <<ws[c], 1>>]) IN
   /\ \A c \in 1..2 : IsPrefix(SelectSeq(got, LAMBDA r : r[1] = c), children[c])
   /\ ~sync => Len(got) = lens[1] + lens[2]
   /\ sync => /\ \A c \in 1..2 : Len(SelectSeq(got, LAMBDA r : r[1] = c)) * w[3 - c] = Len(SelectSeq(got, LAMBDA r : r[1] = 3 - c)) * w[c]
              /\ \E c \in 1..2 : lens[c] - Len(SelectSeq(got, LAMBDA r : r[1] = c)) < w[c]
Facts == PlanFacts /\ MixFacts
ASSUME Facts
=============================================================================
