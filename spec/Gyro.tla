-------------------------------- MODULE Gyro --------------------------------
(* Coefficients of the platform's two-pole tilt filter: the platform's       *)
(* period and damping, the Schuler frequency of the Earth, and the bilinear  *)
(* transform of the sampling interval.                                       *)
EXTENDS Elem
Tan(x) == LET sc == SinCos(x) IN NDiv(sc[1], sc[2])
\* Schuler frequency of the Earth: sqrt(9.8/6371100)
Schuler == NSqrt(NDiv(NRat(98, 10), NInt(6371100)))
Warp(w, dt) == NMul(NDiv(NInt(2), dt), Tan(NDivI(NMul(w, dt), 2)))
RootHalf == NDivI(NSqrt(NInt(2)), 2)
Coefs(per, dt, damp) ==
  LET w0 == Warp(NDiv(NMulI(NPi, 2), per), dt)
      ws == Warp(Schuler, dt)
      z == IF NSign(damp) = 0 THEN RootHalf ELSE damp
      d == NSqr(w0)
      a == NSub(NSqr(ws), d)
      b == NMul(NMulI(NMul(z, w0), 2), NDiv(NInt(2), dt))
      c == NDiv(NInt(4), NSqr(dt))
      r == NRecip(NAdd(NAdd(b, c), d))
  IN <<NMul(NSub(a, b), r), NMul(NMulI(a, 2), r), NMul(NAdd(a, b), r),
       NMul(NMulI(NSub(d, c), 2), r), NMul(NSub(NAdd(c, d), b), r)>>
\* sine and cosine of the angle with tangent x
SinCosOfTan(x) == LET c == NRecip(NSqrt(NAdd(NOne, NSqr(x)))) IN <<NMul(x, c), c>>
=============================================================================
