----------------------------- MODULE MC_Normal ------------------------------
(* Walk from the equator to the pole and from sea level up: gravity grows   *)
(* strictly with latitude between the tabulated WGS84 values at equator and *)
(* pole; the correction is zero at sea level, negative and decreasing with  *)
(* height, and its gradient in water is weaker.                             *)
EXTENDS Normal
CONSTANTS LatStep, HeightStep, MaxHeight
VARIABLES lat, h, g, c, w
S(l) == NSqr(SinCosDeg(NInt(l))[1])
MInit == lat = 0 /\ h = 0 /\ g = NormalGravity(NZero) /\ c = Correction(NZero, NZero, FALSE) /\ w = Correction(NZero, NZero, TRUE)
Vals == /\ g' = NormalGravity(S(lat')) /\ c' = Correction(S(lat'), NInt(h'), FALSE) /\ w' = Correction(S(lat'), NInt(h'), TRUE)
MNext == \/ lat < 90 /\ lat' = lat + LatStep /\ h' = h /\ Vals
         \/ h < MaxHeight /\ h' = h + HeightStep /\ lat' = lat /\ Vals
Grows == [][lat' > lat => NLt(g, g')]_<<lat, h, g, c, w>>
Falls == [][h' > h => NLt(c', c) /\ NLt(w', w) /\ NLt(c', w')]_<<lat, h, g, c, w>>
Zero == h = 0 => c = NZero /\ w = NZero
\* 9.7803253359 and 9.8321849378 m/s^2
Ends == (lat = 0 => g = GammaE) /\ (lat = 90 => NNear(g, NAdd(NInt(983218), NMul(NInt(49378), NPow10(-5))), NPow10(-4)))
\* S is even: the functions of it are
EvenLat == NNear(S(-lat), S(lat), NPow10(-22))
=============================================================================
