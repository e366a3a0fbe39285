---------------------------- MODULE TracePlatform ---------------------------
(* Recorded calls of up_vecs, run through Platform.                         *)
EXTENDS Platform, Gyro, Json, IOUtils
Cases == JsonDeserialize(IOEnv.TRACE)
VARIABLES k, judged
Q == Cases[k].req
O == Cases[k].obs
\* driving term: acceleration over gravity; missing accelerations, switched-off samples and missing gravity give none
Drive(acc, g, off) == MkSeq(LAMBDA j :
   IF IsNaN(acc[j]) \/ IsNaN(g[j]) \/ off[j] THEN NZero ELSE NDiv(acc[j], g[j]), Len(acc))
Off(q) == MkSeq(LAMBDA j : ~IsNaN(q.onoff[j]) /\ NSign(q.onoff[j]) > 0, Len(q.onoff))
VARIABLE ready
TInit == k \in 1..Len(Cases) /\ judged = FALSE /\ ready = FALSE /\ PStart(<<>>, <<<<>>, <<>>>>)
TPrepare == /\ ~ready /\ ready' = TRUE /\ UNCHANGED <<k, judged, mem, tilt>>
            /\ coef' = <<Coefs(Q.cper, Q.dt, Q.cdamp), Coefs(Q.lper, Q.dt, Q.ldamp)>>
            /\ LET off == Off(Q) IN drive' = <<Drive(Q.cacc, Q.g, off), Drive(Q.lacc, Q.g, off)>>
TStep == ready /\ PNext /\ UNCHANGED <<k, judged, ready>>
Tol == NPow10(-10)
Fails ==
  IF O.kind # "array" THEN {"kind-" \o O.kind}
  ELSE IF Len(O.up) # 3 \/ \E a \in 1..3 : Len(O.up[a]) # Len(Q.cacc) THEN {"shape"}
  ELSE UNION {LET u == Up(SinCosOfTan(tilt[1][j]), SinCosOfTan(tilt[2][j]), j - 1)
                  v == <<O.up[1][j], O.up[2][j], O.up[3][j]>>
              IN UNION {IF NNear(v[a], u[a], Tol) THEN {} ELSE {<<"cross", "long", "up">>[a]} : a \in 1..3}
                 \cup (IF (\A a \in 1..3 : IsNum(v[a])) /\ NNear(NAdd3(NSqr(v[1]), NSqr(v[2]), NSqr(v[3])), NOne, NPow10(-14)) THEN {} ELSE {"unit-length"})
                 \cup (IF Q.silent /\ v # <<NZero, NZero, NOne>> THEN {"silence"} ELSE {})
              : j \in 1..Len(Q.cacc)}
Judge == /\ ready /\ PDone /\ ~judged /\ judged' = TRUE /\ UNCHANGED <<pvars, k, ready>>
         /\ PrintT(<<"VERDICT", k, Fails>>)
TNext == TPrepare \/ TStep \/ Judge
=============================================================================
