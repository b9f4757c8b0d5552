---------------------------- MODULE SymmetryTables ----------------------------
(***************************************************************************)
(* Where every symmetry sends every move on all boards up to N x N.         *)
(***************************************************************************)
EXTENDS Symmetry, Json, IOUtils, TLC
CONSTANT N
Sent(h, w, k) ==
  IF k \in Allowed(h, w, "default") THEN [i \in 1..(h * w) |-> Move(k, h, w, <<(i - 1) % w, (i - 1) \div w>>)] ELSE <<>>
Moves == [h \in 1..N |-> [w \in 1..N |-> [k \in 1..8 |-> Sent(h, w, k - 1)]]]
Names == [h \in 1..2 |-> [w \in 1..2 |->
  <<Allowed(h, w, "default"), Allowed(h, w, "rotate"), Allowed(h, w, "flip"), Allowed(h, w, "flip_diag_rotate180")>>]]
Answers == <<Facts, Moves, Names>>
=============================================================================
