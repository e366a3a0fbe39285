----------------------------- MODULE TraceFrames ----------------------------
(* Recorded calls of ENvel_to_course_heading and                            *)
(* rotate_acceleration_EN_to_cl, sample by sample.                          *)
EXTENDS Elem, Json, IOUtils
Cases == JsonDeserialize(IOEnv.TRACE)
VARIABLES k, i, bad
tvars == <<k, i, bad>>
TInit == k \in 1..Len(Cases) /\ i = 0 /\ bad = {}
Q == Cases[k].req
O == Cases[k].obs
Size(v) == NAdd(NAbs(v[1]), NAbs(v[2]))
OK(x, y, s) == IsNum(x) /\ NLe(NAbs(NSub(x, y)), NAdd(NMul(s, NPow10(-11)), NPow10(-15)))
Half == NInt(180)
\* v = <<ve, vn>>; the course is the direction of the velocity
CourseFails(v, h, vel) ==
  IF ~IsNum(h) \/ ~IsNum(vel) THEN {"not-a-number"}
  ELSE LET sc == SinCosDeg(h) IN
    (IF NSign(vel) >= 0 THEN {} ELSE {"negative-speed"})
    \cup (IF NLe(NAbs(h), Half) THEN {} ELSE {"heading-range"})
    \cup (IF OK(NMul(vel, sc[1]), v[1], Size(v)) THEN {} ELSE {"east"})
    \cup (IF OK(NMul(vel, sc[2]), v[2], Size(v)) THEN {} ELSE {"north"})
    \cup (IF OK(vel, NSqrt(NAdd(NSqr(v[1]), NSqr(v[2]))), Size(v)) THEN {} ELSE {"speed"})
RotateFails(h, v, c, a) ==
  LET sc == SinCosDeg(h)
      s == NAdd(Size(v), NMul(Size(v), NDivI(NAbs(h), 36)))  \* rounding of many turns
  IN (IF OK(c, NSub(NMul(v[1], sc[2]), NMul(v[2], sc[1])), s) THEN {} ELSE {"cross"})
     \cup (IF OK(a, NAdd(NMul(v[1], sc[1]), NMul(v[2], sc[2])), s) THEN {} ELSE {"along"})
ShapeFails == IF O.kind # "pair" THEN {"kind-" \o O.kind}
              ELSE IF Len(O.a) # Len(Q.e) \/ Len(O.b) # Len(Q.e) THEN {"length"} ELSE {}
N == IF ShapeFails = {} THEN Len(Q.e) ELSE 0
Step == /\ i < N /\ i' = i + 1 /\ UNCHANGED k
        /\ bad' = bad \cup (IF Q.fun = "course" THEN CourseFails(<<Q.e[i'], Q.n[i']>>, O.a[i'], O.b[i'])
                            ELSE RotateFails(Q.h[i'], <<Q.e[i'], Q.n[i']>>, O.a[i'], O.b[i']))
Judge == /\ i = N /\ i' = N + 1 /\ UNCHANGED <<k, bad>>
         /\ PrintT(<<"VERDICT", k, bad \cup ShapeFails>>)
TNext == Step \/ Judge
=============================================================================
