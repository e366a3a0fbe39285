------------------------------- MODULE Normal -------------------------------
(* Normal gravity (Somigliana, WGS84) and the second-order free-air          *)
(* correction as functions of s = sin(lat)^2, in milligal.                   *)
EXTENDS Elem
Coef(hi, lo) == NAdd(NMul(NInt(hi), NPow10(-8)), NMul(NInt(lo), NPow10(-14)))  \* hi*1e-8 + lo*1e-14
GammaE == NAdd(NInt(978032), NMul(NInt(53359), NPow10(-5)))
KSom == Coef(193185, 265241)             \* 0.00193185265241
E2Som == Coef(669437, 999014)            \* 0.00669437999014
NormalGravity(s) == NDiv(NMul(GammaE, NAdd(NOne, NMul(KSom, s))), NSqrt(NSub(NOne, NMul(E2Som, s))))
FreeAir == NMul(NInt(3087691), NPow10(-7))
FreeWater == NMul(NInt(22242), NPow10(-5))
LatTerm == NMul(NInt(4398), NPow10(-7))
Second == NMul(NInt(72125), NPow10(-12))
Correction(s, h, water) ==
  NSub(NMul(Second, NSqr(h)), NMul(NSub(IF water THEN FreeWater ELSE FreeAir, NMul(LatTerm, s)), h))
=============================================================================
