----------------------------- MODULE TraceTrack -----------------------------
(* Recorded calls of latlon_to_EN: the differentiator machine runs over the *)
(* latitudes and the longitudes, then the ellipsoid's radii scale the rates.*)
EXTENDS Taylor, Radii, Json, IOUtils
Cases == JsonDeserialize(IOEnv.TRACE)
VARIABLES k, stage, dlat, judged
\* a missing sample makes the differences it takes part in missing
MAdd(a, b) == IF IsNum(a) /\ IsNum(b) THEN NAdd(a, b) ELSE <<>>
MMulI(a, m) == IF IsNum(a) THEN NMulI(a, m) ELSE <<>>
Accepted(q) == Len(q.lon) = Len(q.lat) /\ Len(q.lat) > 10
TInit == /\ k \in 1..Len(Cases) /\ judged = FALSE /\ stage = 1 /\ dlat = <<>>
         /\ TayStart(IF Accepted(Cases[k].req) THEN Cases[k].req.lat ELSE <<>>)
TStep == TayNext /\ UNCHANGED <<k, stage, dlat, judged>>
TTurn == /\ TayDone /\ stage = 1 /\ stage' = 2 /\ dlat' = out
         /\ src' = (IF Accepted(Cases[k].req) THEN Cases[k].req.lon ELSE <<>>) /\ pos' = 0 /\ out' = <<>>
         /\ UNCHANGED <<k, judged>>
Missing(v) == Len(v) = 0
\* rounding of degrees of size 360 through the differentiator: about 10^-8 m
Tol(freq) == NMul(NPow10(-7), NMulI(NMax(NOne, freq), 2))
ValueFails(q, o) == UNION {
  IF i <= 5 \/ i > Len(q.lat) - 5 THEN
     (IF Missing(o.vn[i]) /\ Missing(o.ve[i]) THEN {} ELSE {"edge-value"})
  ELSE IF Missing(q.lat[i]) THEN (IF Missing(o.vn[i]) /\ Missing(o.ve[i]) THEN {} ELSE {"missing"})
  ELSE LET known(d) == IF IsNum(d) THEN d ELSE NZero
           e == VelocityOf(q.lat[i], known(dlat[i]), known(out[i]), q.freq)
           \* the centre of the window has no weight: missing there, the rate may be either
           ok(x, y, d, c) == \/ IsNaN(x) /\ (IsNaN(d) \/ IsNaN(c))
                             \/ IsNum(d) /\ IsNum(x) /\ NLe(NAbs(NSub(x, y)), NAdd(Tol(q.freq), NMul(NAbs(y), NPow10(-11))))
       IN (IF ok(o.vn[i], e[1], dlat[i], q.lat[i]) THEN {} ELSE {"north"})
          \cup (IF ok(o.ve[i], e[2], out[i], q.lon[i]) THEN {} ELSE {"east"})
  : i \in 1..Len(q.lat)}
Fails(q, o) ==
  IF ~Accepted(q) THEN (IF o.kind = "raise" THEN {} ELSE {"bad-input-accepted"})
  ELSE IF o.kind # "pair" THEN {"kind-" \o o.kind}
  ELSE IF Len(o.vn) # Len(q.lat) \/ Len(o.ve) # Len(q.lat) THEN {"length"}
  ELSE ValueFails(q, o)
Judge == /\ TayDone /\ stage = 2 /\ ~judged /\ judged' = TRUE
         /\ PrintT(<<"VERDICT", k, Fails(Cases[k].req, Cases[k].obs)>>)
         /\ UNCHANGED <<tvars, k, stage, dlat>>
TNext == TStep \/ TTurn \/ Judge
=============================================================================
