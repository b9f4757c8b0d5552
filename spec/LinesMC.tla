------------------------------- MODULE LinesMC -------------------------------
(* The facts, for the lengths 1, 3, .. of the constant Longest.              *)
EXTENDS Lines
CONSTANT Longest
VARIABLE L
Init == L = 1
Next == L + 2 <= Longest /\ L' = L + 2
Numbers == Facts(L)
=============================================================================
