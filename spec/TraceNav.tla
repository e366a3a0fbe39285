------------------------------ MODULE TraceNav -----------------------------
(* Recorded calls of read_nav, each run through the machine of NavSeries. *)
EXTENDS NavSeries, NavText, Json, IOUtils
Cases == JsonDeserialize(IOEnv.TRACE)
VARIABLE k, judged

TInit == /\ k \in 1..Len(Cases) /\ judged = FALSE
         /\ StartWith(Cases[k].req)
TStep == Next /\ UNCHANGED <<k, judged>>

Tol == NPow10(-10)
RowFails(e, o) ==       \* expected row, observed row
  (IF TNear(e.t, o.t, 1) THEN {} ELSE {"time"})
  \cup (IF o.st # <<>> /\ TNear(e.t, o.st, 0) THEN {} ELSE {"stamp"})
  \cup (IF e.miss THEN (IF IsNaN(o.lon) /\ IsNaN(o.lat) THEN {} ELSE {"dropout"})
        ELSE (IF NNear(o.lon, e.lon, Tol) THEN {} ELSE {"lon"})
             \cup (IF NNear(o.lat, e.lat, Tol) THEN {} ELSE {"lat"}))
\* numbers come in columns of numbers, times in a column of times
TypeFails(t) == {c \in {"time_sec", "lon", "lat", "stamps"} : t[c] # (IF c = "stamps" THEN "t" ELSE "n")}
Fails(o) ==
  IF out.kind # o.kind THEN {"kind-" \o o.kind \o "-for-" \o out.kind}
  ELSE IF out.kind = "sentinel" THEN {}
  ELSE IF Len(out.rows) # Len(o.rows) THEN {"rows"}
  ELSE UNION {RowFails(out.rows[i], o.rows[i]) : i \in 1..Len(o.rows)}
       \cup (IF o.rows = <<>> THEN {} ELSE TypeFails(o.types))
\* the design's own properties, evaluated on the recorded behaviour as well
DesignFails == {x \in {"design"} : ~(Increasing /\ ExactTimes /\ FirstWins /\ SameMod360
                                     /\ NoJumpLeft /\ MajoritySide /\ SentinelRule)}
Judge == /\ Done /\ ~judged
         /\ judged' = TRUE
         /\ PrintT(<<"VERDICT", k, Fails(Cases[k].obs) \cup DesignFails>>)
         /\ UNCHANGED <<vars, k>>
TNext == TStep \/ Judge
=============================================================================
