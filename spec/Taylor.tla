------------------------------- MODULE Taylor -------------------------------
(***************************************************************************)
(* The 10-point Taylor differentiator as a machine: a window of eleven     *)
(* samples slides over the series; each position yields one derivative per *)
(* sample interval, and the five positions at either end have none.        *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt
CONSTANTS Zero, Add(_, _), MulI(_, _)      \* MulI: number times integer
VARIABLES src, pos, out                     \* out[i] is 2520 times the derivative, or <<>>
tvars == <<src, pos, out>>
\* weight of the sample j places after the centre, times 2520
TayW == [j \in -5..5 |-> IF j = 0 THEN 0 ELSE
           (IF j > 0 THEN 1 ELSE -1) * <<2100, -600, 150, -25, 2>>[IF j > 0 THEN j ELSE -j]]
TayAt(s, i) == FoldLeft(LAMBDA t, m : LET j == m - 6 IN
                 IF j = 0 THEN t ELSE Add(t, MulI(s[i + j], TayW[j])), Zero, [m \in 1..11 |-> m])
TayStart(s) == src = s /\ pos = 0 /\ out = <<>>
TayDone == pos = Len(src)
TayNext == /\ ~TayDone
           /\ pos' = pos + 1
           /\ out' = Append(out, IF pos' <= 5 \/ pos' > Len(src) - 5 THEN <<>> ELSE TayAt(src, pos'))
           /\ UNCHANGED src
-----------------------------------------------------------------------------
EdgesEmpty == \A i \in 1..Len(out) : (out[i] = <<>>) = (i <= 5 \/ i > Len(src) - 5)
SameLength == TayDone => Len(out) = Len(src)
=============================================================================
