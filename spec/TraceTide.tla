------------------------------ MODULE TraceTide ------------------------------
(* Recorded calls of longman_tide_prediction, judged sample by sample.       *)
EXTENDS Tide, Json, IOUtils
Cases == JsonDeserialize(IOEnv.TRACE)
VARIABLES k, i, bad
TInit == k \in 1..Len(Cases) /\ i = 0 /\ bad = {}
Q == Cases[k].req
O == Cases[k].obs
\* stamp = <<year, month, day, hour, minute, second, offset from UTC in seconds>>
UTC(w) == LET s == Clock(w[4], w[5], w[6]) - w[7]
              q == s \div 86400
          IN <<DayNumber(w[1], w[2], w[3]) + q, s - 86400 * q>>
Tol == NPow10(-9)
SampleFails(w, lon, lat, alt, j) ==
  LET u == UTC(w) e == Pair(u[1], u[2], lon, lat, alt)
  IN (IF NNear(O.g0[j], NAdd(e[1], e[2]), Tol) THEN {} ELSE {"total"})
     \cup (IF Q.comp /\ ~NNear(O.gm[j], e[1], Tol) THEN {"lunar"} ELSE {})
     \cup (IF Q.comp /\ ~NNear(O.gs[j], e[2], Tol) THEN {"solar"} ELSE {})
ShapeFails ==
  IF ~(Len(Q.lon) = Len(Q.lat) /\ Len(Q.lon) = Len(Q.times)) THEN (IF O.kind = "raise" THEN {} ELSE {"bad-input-accepted"})
  ELSE IF O.kind # (IF Q.comp THEN "triple" ELSE "array") THEN {"kind-" \o O.kind}
  ELSE IF Len(O.g0) # Len(Q.times) \/ (Q.comp /\ (Len(O.gm) # Len(Q.times) \/ Len(O.gs) # Len(Q.times))) THEN {"length"} ELSE {}
N == IF ShapeFails = {} /\ O.kind # "raise" THEN Len(Q.times) ELSE 0
Step == /\ i < N /\ i' = i + 1 /\ UNCHANGED k
        /\ bad' = bad \cup SampleFails(Q.times[i'], Q.lon[i'], Q.lat[i'], Q.alt[i'], i')
Judge == /\ i = N /\ i' = N + 1 /\ UNCHANGED <<k, bad>>
         /\ PrintT(<<"VERDICT", k, bad \cup ShapeFails>>)
TNext == Step \/ Judge
=============================================================================
