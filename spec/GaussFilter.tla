----------------------------- MODULE GaussFilter ---------------------------
(***************************************************************************)
(* The causal filter of gaussian_filter: a window of the last n samples    *)
(* (zeros before the start) is moved along the series, and every output is *)
(* the sum of tap times sample.                                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt
CONSTANTS Zero, Add(_, _), Mul(_, _)
VARIABLES taps, x, window, y
vars == <<taps, x, window, y>>
StartWith(t, s) == taps = t /\ x = s /\ window = [j \in 1..Len(t) |-> Zero] /\ y = <<>>
Dot(t, w) == FoldLeft(LAMBDA s, j : IF w[j] = Zero THEN s ELSE Add(s, Mul(t[j], w[j])), Zero, [j \in 1..Len(t) |-> j])
Next == /\ Len(y) < Len(x)
        /\ window' = Append(Tail(window), x[Len(y) + 1])
        /\ y' = Append(y, Dot(taps, window'))
        /\ UNCHANGED <<taps, x>>
Done == Len(y) = Len(x)
-----------------------------------------------------------------------------
Sample(i) == IF i >= 1 THEN x[i] ELSE Zero
\* closed form: the output is a convolution, causal and with fixed taps
Convolution == \A m \in 1..Len(y) : y[m] = Dot(taps, [j \in 1..Len(taps) |-> Sample(m - Len(taps) + j)])
\* n equal samples in a row come out multiplied by the sum of the taps
SumTaps == FoldLeft(LAMBDA s, t : Add(s, t), Zero, taps)
KeepsConstant == \A m \in Len(taps)..Len(y) :
   (\A j \in 1..Len(taps) : x[m - Len(taps) + j] = x[m]) => y[m] = Mul(SumTaps, x[m])
=============================================================================
