------------------------------- MODULE Radii --------------------------------
(* Velocity on the WGS84 ellipsoid from the rates of latitude and longitude  *)
(* (degrees per sample, times 2520) and the sampling frequency.              *)
EXTENDS Elem
\* WGS84
MajA == NInt(6378137)
\* ratio of the axes: 1 - (a-b)/a, a - b = 21384.6857549 m
Flat == NDiv(NAdd(NInt(21384), NDivI(NDivI(NInt(6857549), 10000), 1000)), MajA)
E2 == NMul(Flat, NSub(NInt(2), Flat))
Rate(d) == NMul(NDivI(d, 2520), NDegRad)
VelocityOf(lat, dla, dlo, freq) ==
  LET sc == SinCosDeg(lat)
      u == NSub(NOne, NMul(E2, NSqr(sc[1])))
      w == NSqrt(u)
      north == NDiv(NMul(NMul(MajA, NSub(NOne, E2)), Rate(dla)), NMul(u, w))
      east == NDiv(NMul(NMul(MajA, Rate(dlo)), sc[2]), w)
  IN <<NMul(north, freq), NMul(east, freq)>>
=============================================================================
