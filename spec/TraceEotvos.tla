----------------------------- MODULE TraceEotvos ----------------------------
(* Recorded calls of eotvos_full and center_diff.                           *)
EXTENDS Eotvos, Json, IOUtils
Cases == JsonDeserialize(IOEnv.TRACE)
VARIABLES k, judged
Q == Cases[k].req
O == Cases[k].obs
EccOf(a, b) == NDiv(NSub(a, b), a)
TInit == /\ k \in 1..Len(Cases) /\ judged = FALSE
         /\ EStart(IF Cases[k].req.fun = "diff" \/ Len(Cases[k].req.lat) < 3 THEN [lat |-> <<>>]
                   ELSE LET q == Cases[k].req IN [lon |-> q.lon, lat |-> q.lat, ht |-> q.ht, samp |-> q.samp, a |-> q.a, ecc |-> EccOf(q.a, q.b)])
TStep == ENext /\ UNCHANGED <<k, judged>>
Tol(v) == NAdd(NMul(NPow10(-5), NMax(NOne, NSqr(Q.samp))), NMul(NAbs(v), NPow10(-10)))
EotvosFails ==
  IF O.kind # "array" THEN {"kind-" \o O.kind}
  ELSE IF Len(O.y) # Len(Q.lat) THEN {"length"}
  ELSE LET w == Whole IN
    (IF \A i \in 2..(Len(w)-1) : NNear(O.y[i], w[i], Tol(w[i])) THEN {} ELSE {"value"})
    \cup (IF O.y[1] = O.y[2] /\ O.y[Len(w)] = O.y[Len(w)-1] THEN {} ELSE {"edge"})
    \cup (IF Q.rest /\ \E i \in 1..Len(w) : ~NNear(O.y[i], NZero, NPow10(-9)) THEN {"rest"} ELSE {})
\* center_diff
DTol(e) == NAdd(NMul(e, NPow10(-13)), NPow10(-18))
DiffFails ==
  IF Q.n \notin {1, 2} THEN (IF O.kind = "sentinel" THEN {} ELSE {"order-" \o O.kind})
  ELSE IF O.kind # "array" THEN {"kind-" \o O.kind}
  ELSE IF Len(O.y) # Len(Q.y) - 2 THEN {"length"}
  ELSE IF \A i \in 2..(Len(Q.y)-1) :
     LET e == IF Q.n = 1 THEN NMul(Diff1(Q.y, i), Q.samp) ELSE NMul(NMul(Diff2(Q.y, i), Q.samp), Q.samp)
         s == NAdd(NAdd(NAbs(Q.y[i-1]), NAbs(Q.y[i+1])), NMulI(NAbs(Q.y[i]), 2))
         f == NMax(NOne, IF Q.n = 1 THEN Q.samp ELSE NSqr(Q.samp))
     IN NNear(O.y[i-1], e, DTol(NMul(s, f)))
  THEN {} ELSE {"difference"}
Judge == /\ EDone /\ ~judged /\ judged' = TRUE /\ UNCHANGED <<evars, k>>
         /\ PrintT(<<"VERDICT", k, IF Q.fun = "diff" THEN DiffFails ELSE EotvosFails>>)
TNext == TStep \/ Judge
=============================================================================
