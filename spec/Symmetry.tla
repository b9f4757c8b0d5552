------------------------------- MODULE Symmetry -------------------------------
(***************************************************************************)
(* The eight symmetries of a board, and what one sample looks like after    *)
(* the side convention, a symmetry and padding.                             *)
(*                                                                         *)
(* Points <<x, y>> count from 0; a board has h rows and w columns and s is  *)
(* the last index of a side.                                                *)
(*   0 identity            4 (x, y) -> (x, s - y)                          *)
(*   1 (x, y) -> (y, s-x)  5 (x, y) -> (s - x, y)                          *)
(*   2 (x, y) -> (s-x,s-y) 6 (x, y) -> (y, x)                              *)
(*   3 (x, y) -> (s-y, x)  7 (x, y) -> (s - y, s - x)                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Move(k, h, w, p) ==
  LET x == p[1] y == p[2] r == w - 1 - p[1] u == h - 1 - p[2] IN
  CASE k = 0 -> <<x, y>> [] k = 1 -> <<y, r>> [] k = 2 -> <<r, u>> [] k = 3 -> <<u, x>>
    [] k = 4 -> <<x, u>> [] k = 5 -> <<r, y>> [] k = 6 -> <<y, x>> [] k = 7 -> <<u, r>>

Inverse(k) == IF k = 1 THEN 3 ELSE IF k = 3 THEN 1 ELSE k
Kinds == {"default", "rotate", "flip", "flip_diag_rotate180"}
(* {} when the kind is refused for the board *)
Allowed(h, w, kind) ==
  CASE kind = "none" -> {0}
    [] kind = "default" -> IF h = w THEN 0..7 ELSE {0, 2, 4, 5}
    [] h # w -> {}
    [] kind = "rotate" -> 0..3
    [] kind = "flip" -> {0, 4, 5, 6, 7}
    [] kind = "flip_diag_rotate180" -> {0, 2, 6, 7}

Points(h, w) == (0..w - 1) \X (0..h - 1)

(* grid[y + 1][x + 1]; the grid seen under symmetry k, padded to H x W with pad *)
Image(k, grid, h, w, H, W, pad) ==
  [y \in 1..H |-> [x \in 1..W |->
     IF y > h \/ x > w THEN pad
     ELSE LET q == Move(Inverse(k), h, w, <<x - 1, y - 1>>) IN grid[q[2] + 1][q[1] + 1]]]

(* ---- facts, checked for all boards up to 4 x 4 (no variables) ---- *)
Boards == (1..4) \X (1..4)
Onto == \A b \in Boards : \A k \in Allowed(b[1], b[2], "default") :
          {Move(k, b[1], b[2], p) : p \in Points(b[1], b[2])} = Points(b[1], b[2])
Inverses == \A b \in Boards : \A k \in Allowed(b[1], b[2], "default") : \A p \in Points(b[1], b[2]) :
          Move(Inverse(k), b[1], b[2], Move(k, b[1], b[2], p)) = p
Same(n, k, m) == \A p \in Points(n, n) : Move(k, n, n, p) = Move(m, n, n, p)
Distinct == \A k, m \in 0..7 : k # m => ~Same(3, k, m)
Closed(kind, n) == \A k, m \in Allowed(n, n, kind) : \E j \in Allowed(n, n, kind) :
          \A p \in Points(n, n) : Move(j, n, n, p) = Move(k, n, n, Move(m, n, n, p))
Groups == \A n \in 1..4 : Closed("default", n) /\ Closed("rotate", n) /\ Closed("flip_diag_rotate180", n)
(* a stone on a point of the grid is where the move goes *)
Agree == \A b \in Boards : \A k \in Allowed(b[1], b[2], "default") : \A p \in Points(b[1], b[2]) :
          LET grid == [y \in 1..b[1] |-> [x \in 1..b[2] |-> IF <<x - 1, y - 1>> = p THEN 1 ELSE 0]]
              out == Image(k, grid, b[1], b[2], b[1], b[2], 0) q == Move(k, b[1], b[2], p) IN
          out[q[2] + 1][q[1] + 1] = 1
(* neighbours stay neighbours: lines of stones stay lines *)
Near(p, q) == (p[1] - q[1]) * (p[1] - q[1]) + (p[2] - q[2]) * (p[2] - q[2])
Rigid == \A b \in Boards : \A k \in Allowed(b[1], b[2], "default") : \A p, q \in Points(b[1], b[2]) :
          Near(p, q) = Near(Move(k, b[1], b[2], p), Move(k, b[1], b[2], q))
Facts == <<Onto, Inverses, Distinct, Groups, Agree, Rigid>>
=============================================================================
