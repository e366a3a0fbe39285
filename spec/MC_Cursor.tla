------------------------------ MODULE MC_Cursor ----------------------------
(* All event sequences of length MaxLen over three samples at times 2, 6, 8. *)
EXTENDS Cursor, Json, TLC
CONSTANT MaxLen
Times == <<2, 6, 8>>
Events == {<<"move", x>> : x \in {0, 3, 6, 9}} \cup {<<"leave", 0>>, <<"other", 6>>, <<"right", 2>>}
          \cup {<<"left", x>> : x \in {0, 4, 7, 9}}
MInit == \E e \in [1..MaxLen -> Events] : StartWith(Times, e)
MNext == (n = 0 => PrintT(ToJson([SCEN |-> events]))) /\ Next
MSpec == MInit /\ [][MNext]_vars
=============================================================================
