---------------------------- MODULE MC_StatusBits --------------------------
(* Every status word. *)
EXTENDS StatusBits
MInit == \E w \in 0..65535 : StartWith(w)
=============================================================================
