--------------------------- MODULE MC_CentreDiff ----------------------------
(* Centred differences are exact for every quadratic A + B*i + C*i^2.       *)
EXTENDS Integers, Sequences
CONSTANT Size
VARIABLES y, i, c
MInit == \E a \in -Size..Size, b \in -Size..Size, q \in -Size..Size :
          y = [j \in 1..9 |-> a + b * j + q * j * j] /\ c = <<a, b, q>> /\ i = 1
MNext == i < 8 /\ i' = i + 1 /\ UNCHANGED <<y, c>>
First == i > 1 => y[i+1] - y[i-1] = 2 * (c[2] + 2 * c[3] * i)
Second == i > 1 => y[i-1] - 2 * y[i] + y[i+1] = 2 * c[3]
=============================================================================
