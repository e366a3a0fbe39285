---------------------------- MODULE TraceLeveling ---------------------------
(* Recorded reductions of a track: latlon_to_EN, the differentiator tay10,   *)
(* ENvel_to_course_heading, rotate_acceleration_EN_to_cl, normal gravity and *)
(* up_vecs, called one after the other, run through Leveling.                *)
EXTENDS Leveling, Radii, Gyro, Json, IOUtils
NG == INSTANCE Normal
Cases == JsonDeserialize(IOEnv.TRACE)
VARIABLES k, judged
Q == Cases[k].req
O == Cases[k].obs
LMissing(a) == ~IsNum(a)
ToNorth == <<NZero, NOne>>
\* the rates are pairs <<longitude, latitude>>, VelocityOf gives <<north, east>>
LMetric(p, r) == LET v == VelocityOf(p[2], r[2], r[1], Q.freq) IN <<v[2], v[1]>>
LScale(a) == NMul(NMul(NDivI(a, 2520), Q.freq), NPow10(5))
\* a ship at rest has no course: any will do, as it has no accelerations either
Slow == NRat(1, 100)
Speed(v) == NSqrt(NAdd(NSqr(v[1]), NSqr(v[2])))
LCourse(v) == IF LMissing(v[1]) THEN ToNorth
              ELSE LET s == Speed(v) IN IF NLt(s, Slow) THEN ToNorth ELSE <<NDiv(v[1], s), NDiv(v[2], s)>>
GravityAt(lat) == NG!NormalGravity(NSqr(SinCosDeg(lat)[1]))
LForce(i, a) == NDiv(a, GravityAt(track[i][2]))
TInit == /\ k \in 1..Len(Cases) /\ judged = FALSE
         /\ LStart([i \in 1..Len(Cases[k].req.lon) |-> <<Cases[k].req.lon[i], Cases[k].req.lat[i]>>],
                   <<Coefs(Cases[k].req.cper, NRecip(Cases[k].req.freq), Cases[k].req.cdamp), Coefs(Cases[k].req.lper, NRecip(Cases[k].req.freq), Cases[k].req.ldamp)>>)
TStep == LNext /\ UNCHANGED <<k, judged>>
-----------------------------------------------------------------------------
\* rounding of degrees of size 360: about 10^-8 m, so that times the frequency in velocity, times its square in accelerations (milligal)
F1 == NMax(NOne, Q.freq)
VTol == NMul(NMul(NInt(2), NPow10(-7)), F1)
ATol == NMul(NMul(NInt(4), NPow10(-2)), NSqr(F1))
UTol == NMul(NPow10(-6), NSqr(F1))
Same(x, e, tol) == IF LMissing(e) THEN IsNaN(x) ELSE IsNum(x) /\ NLe(NAbs(NSub(x, e)), NAdd(tol, NMul(NAbs(e), NPow10(-9))))
\* the course is known to the error of the velocity over the speed
RowFails(i) ==
  LET o == O.rows[i] v == vel[i] s == ship[i]
      moving == ~LMissing(v[1]) /\ ~NLt(Speed(v), Slow)
      size == IF LMissing(s[1]) THEN NZero ELSE NAdd(NAbs(s[1]), NAbs(s[2]))
      turn == IF moving THEN NMul(size, NDiv(VTol, Speed(v))) ELSE NMulI(size, 2)
      tol == NAdd(ATol, NMulI(turn, 2))
      sc == IF IsNum(o.course) THEN SinCosDeg(o.course) ELSE ToNorth
      u == PL!Up(SinCosOfTan(tilt[1][i]), SinCosOfTan(tilt[2][i]), i - 1)
  IN (IF Same(o.ve, v[1], VTol) /\ Same(o.vn, v[2], VTol) THEN {} ELSE {"velocity"})
     \cup (IF LMissing(v[1]) THEN {} ELSE IF Same(o.speed, Speed(v), NMulI(VTol, 2)) THEN {} ELSE {"speed"})
     \cup (IF moving THEN (IF Same(NMul(Speed(v), sc[1]), v[1], NMulI(VTol, 4)) /\ Same(NMul(Speed(v), sc[2]), v[2], NMulI(VTol, 4)) THEN {} ELSE {"course"}) ELSE {})
     \cup (IF Same(o.cross, s[1], tol) THEN {} ELSE {"cross-acceleration"})
     \cup (IF Same(o.along, s[2], tol) THEN {} ELSE {"along-acceleration"})
     \cup (IF \A a \in 1..3 : Same(o.up[a], u[a], UTol) THEN {} ELSE {"platform"})
Fails == IF O.kind # "rows" THEN {"kind-" \o O.kind}
         ELSE IF Len(O.rows) # N THEN {"length"}
         ELSE UNION {RowFails(i) : i \in 1..N} \cup (IF LEdges THEN {} ELSE {"design"})
Judge == /\ LDone /\ ~judged /\ judged' = TRUE /\ UNCHANGED <<lvars, k>>
         /\ PrintT(<<"VERDICT", k, Fails>>)
TNext == TStep \/ Judge
=============================================================================
