------------------------------- MODULE Survey -------------------------------
(***************************************************************************)
(* The documented use of the package as one machine: the records of the    *)
(* meter are put in order of time, each gets the ship's position at its    *)
(* time from the fixes (on the straight line between the two fixes around  *)
(* it, or through the two nearest ones outside), and, once all positions   *)
(* are known, each is reduced to its anomaly.                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets
CONSTANTS Earlier(_, _),         \* order of times
          Between(_, _, _),     \* two fixes, time -> position
          Reduce(_, _)          \* rows [t, g, pos], number -> anomaly
VARIABLES fixes, recs, rows, anomaly, stage
svars == <<fixes, recs, rows, anomaly, stage>>
SStart == fixes = <<>> /\ recs = <<>> /\ rows = <<>> /\ anomaly = <<>> /\ stage = "read"
\* f: fixes with strictly increasing times; r: records in any order
SLoad(f, r) == /\ stage = "read" /\ Len(f) >= 2
               /\ fixes' = f /\ recs' = SortSeq(r, LAMBDA a, b : Earlier(a.t, b.t))
               /\ stage' = "sync" /\ UNCHANGED <<rows, anomaly>>
\* number of the left one of the two fixes that give the position at time t
Left(f, t) == LET I == {i \in 2..(Len(f) - 1) : ~Earlier(t, f[i].t)}
              IN IF I = {} THEN 1 ELSE CHOOSE i \in I : \A j \in I : j <= i
SSync == /\ stage = "sync" /\ Len(rows) < Len(recs)
         /\ LET r == recs[Len(rows) + 1]
                j == Left(fixes, r.t)
            IN rows' = Append(rows, [t |-> r.t, g |-> r.g, pos |-> Between(fixes[j], fixes[j + 1], r.t)])
         /\ UNCHANGED <<fixes, recs, anomaly, stage>>
SSynced == /\ stage = "sync" /\ Len(rows) = Len(recs) /\ stage' = "reduce" /\ UNCHANGED <<fixes, recs, rows, anomaly>>
SReduce == /\ stage = "reduce" /\ Len(anomaly) < Len(rows)
           /\ anomaly' = Append(anomaly, Reduce(rows, Len(anomaly) + 1))
           /\ UNCHANGED <<fixes, recs, rows, stage>>
SDone == stage = "reduce" /\ Len(anomaly) = Len(rows)
SNext == SSync \/ SSynced \/ SReduce
-----------------------------------------------------------------------------
\* every record once, in order of time, with its own gravity
SComplete == stage = "reduce" => /\ Len(rows) = Len(recs)
                                 /\ \A i \in 1..Len(rows) : rows[i].t = recs[i].t /\ rows[i].g = recs[i].g
SOrdered == \A i \in 1..(Len(rows) - 1) : ~Earlier(rows[i + 1].t, rows[i].t)
\* at the time of a fix the position is the one of that fix
SAtFix == \A i \in 1..Len(rows) : \A j \in 1..Len(fixes) : rows[i].t = fixes[j].t => rows[i].pos = fixes[j].pos
=============================================================================
