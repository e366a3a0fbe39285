----------------------------- MODULE TraceNormal ----------------------------
(* Recorded calls of wgs_grav and free_air_second_order.                    *)
EXTENDS Normal, Json, IOUtils
Cases == JsonDeserialize(IOEnv.TRACE)
VARIABLES k, i, bad
TInit == k \in 1..Len(Cases) /\ i = 0 /\ bad = {}
Q == Cases[k].req
O == Cases[k].obs
Tol(x, h) == NAdd(NMul(NAdd(NAbs(x), NAbs(h)), NPow10(-13)), NPow10(-16))
SampleFails(j) ==
  LET s == NSqr(SinCosDeg(Q.lat[j])[1])
      e == IF Q.fun = "wgs" THEN NormalGravity(s) ELSE Correction(s, Q.h[j], Q.water)
      t == Tol(e, IF Q.fun = "wgs" THEN NZero ELSE Q.h[j])
  IN (IF NNear(O.y[j], e, t) THEN {} ELSE {IF Q.fun = "wgs" THEN "normal-gravity" ELSE IF Q.water THEN "free-water" ELSE "free-air"})
     \cup (IF NNear(O.mirror[j], O.y[j], t) THEN {} ELSE {"not-even"})
     \cup (IF Q.fun = "fa" /\ NSign(Q.h[j]) = 0 /\ NSign(O.y[j]) # 0 THEN {"height-zero"} ELSE {})
ShapeFails == IF O.kind # "array" THEN {"kind-" \o O.kind}
              ELSE IF Len(O.y) # Len(Q.lat) \/ Len(O.mirror) # Len(Q.lat) THEN {"length"} ELSE {}
N == IF ShapeFails = {} THEN Len(Q.lat) ELSE 0
Step == i < N /\ i' = i + 1 /\ UNCHANGED k /\ bad' = bad \cup SampleFails(i')
Judge == /\ i = N /\ i' = N + 1 /\ UNCHANGED <<k, bad>>
         /\ PrintT(<<"VERDICT", k, bad \cup ShapeFails>>)
TNext == Step \/ Judge
=============================================================================
