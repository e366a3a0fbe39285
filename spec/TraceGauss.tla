----------------------------- MODULE TraceGauss ----------------------------
(* Recorded calls of gaussian_filter, run through GaussFilter. *)
EXTENDS GaussFilter, Elem, Json, IOUtils
Cases == JsonDeserialize(IOEnv.TRACE)
VARIABLE k, judged
\* a missing sample makes every sum it takes part in missing
MAdd(a, b) == IF IsNum(a) /\ IsNum(b) THEN NAdd(a, b) ELSE <<>>
MMul(a, b) == IF IsNum(a) /\ IsNum(b) THEN NMul(a, b) ELSE <<>>
\* weight at distance d from the middle: exp(-((d-1)*6/fl)^2/2)
Weight(d, fl) == LET z == NRat(6 * (d - 1), fl) IN NExp(NNeg(NDivI(NSqr(z), 2)))
Taps(fl) ==
  LET h == fl \div 2
      w == MkSeq(LAMBDA d : Weight(d - 1, fl), h + 1)
      s == FoldLeft(LAMBDA t, j : NAdd(t, w[IAbs(j - h - 1) + 1]), NZero, Idx(2*h + 1))
      r == NRecip(s)
      u == MkSeq(LAMBDA d : NMul(w[d], r), h + 1)
  IN MkSeq(LAMBDA j : u[IAbs(j - h - 1) + 1], 2*h + 1)
Accepted(q) == Len(q.x) > q.fl
TInit == /\ k \in 1..Len(Cases) /\ judged = FALSE
         /\ IF Accepted(Cases[k].req) THEN StartWith(Taps(Cases[k].req.fl), Cases[k].req.x)
            ELSE StartWith(<<NOne>>, <<>>)
TStep == Next /\ UNCHANGED <<k, judged>>
Scale == FoldLeft(LAMBDA m, v : IF IsNum(v) THEN NMax(m, NAbs(v)) ELSE m, NZero, x)
Fails(q, o) ==
  IF ~Accepted(q) THEN (IF o.kind = "raise" THEN {} ELSE {"short-input-accepted"})
  ELSE IF o.kind # "array" THEN {"kind-" \o o.kind}
  ELSE IF Len(o.y) # Len(y) THEN {"length"}
  ELSE LET t == NMul(Scale, NPow10(-12)) IN
       IF \A i \in 1..Len(y) : (IF IsNum(y[i]) THEN NNear(o.y[i], y[i], t) ELSE IsNaN(o.y[i])) THEN {} ELSE {"value"}
Judge == /\ Done /\ ~judged /\ judged' = TRUE
         /\ PrintT(<<"VERDICT", k, Fails(Cases[k].req, Cases[k].obs)>>)
         /\ UNCHANGED <<vars, k>>
TNext == TStep \/ Judge
=============================================================================
