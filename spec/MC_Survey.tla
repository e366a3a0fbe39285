----------------------------- MODULE MC_Survey ------------------------------
(* All small surveys: fixes at distinct times of 0..T, positions that are     *)
(* multiples of 60 (so that straight lines stay integral), records in any     *)
(* order.                                                                     *)
EXTENDS Survey
CONSTANTS T, Places, MaxRecs
MBefore(a, b) == a < b
MBetween(a, b, t) == a.pos + ((b.pos - a.pos) * (t - a.t)) \div (b.t - a.t)
\* an anomaly that sees its neighbours, ends repeat theirs
Inner(n, i) == IF i = 1 THEN 2 ELSE IF i = n THEN n - 1 ELSE i
MReduce(w, i) == IF Len(w) < 3 THEN w[i].g ELSE
  LET j == Inner(Len(w), i) IN w[i].g + w[j + 1].pos - w[j - 1].pos
FixSeq(S, f) == LET ts == SetToSortSeq(S, LAMBDA a, b : a < b) IN [i \in 1..Len(ts) |-> [t |-> ts[i], pos |-> f[ts[i]]]]
MInit == SStart
MRead == stage = "read" /\ \E S \in SUBSET (0..T) : Cardinality(S) \in 2..3 /\ \E f \in [S -> Places] :
         \E n \in 1..MaxRecs : \E ts \in [1..n -> 0..T] :
           /\ \A i, j \in 1..n : i # j => ts[i] # ts[j]
           /\ SLoad(FixSeq(S, f), [i \in 1..n |-> [t |-> ts[i], g |-> i]])
MNext == MRead \/ SNext
\* inside the series the position lies between the two fixes around it
MInside == \A i \in 1..Len(rows) : \A j \in 1..(Len(fixes) - 1) :
   (fixes[j].t <= rows[i].t /\ rows[i].t <= fixes[j+1].t) =>
      \/ fixes[j].pos <= rows[i].pos /\ rows[i].pos <= fixes[j+1].pos
      \/ fixes[j+1].pos <= rows[i].pos /\ rows[i].pos <= fixes[j].pos
\* a ship at rest has no motion term
MRest == SDone /\ (\A i \in 1..Len(fixes) : fixes[i].pos = fixes[1].pos) => \A i \in 1..Len(anomaly) : anomaly[i] = rows[i].g
\* the order in which the files are given makes no difference: the table is the one of the sorted records
MOrderFree == SDone => \A i \in 1..Len(rows) : Cardinality({j \in 1..Len(recs) : recs[j].t < rows[i].t}) = i - 1
=============================================================================
