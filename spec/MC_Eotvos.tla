----------------------------- MODULE MC_Eotvos ------------------------------
(* Design checks on a grid of latitudes and speeds: rest gives zero; along  *)
(* the equator the correction is ((w+We)^2-We^2)*(a+h); vertical            *)
(* acceleration enters with a minus sign; reversing the track's east-west   *)
(* direction changes only the odd part.                                     *)
EXTENDS Eotvos
Lats == {-90, -75, -60, -45, -30, -12, 0, 1, 20, 33, 50, 66, 80, 89, 90}
Rates == {-40, -10, -3, -1, 0, 1, 2, 5, 20}
VARIABLES lat, rate, val
MajA == NInt(6378137)
Ecc == NDiv(NRat(213846858, 10000), MajA)
Ht == NInt(1200)
Val(l, r, up) == Milligal(Vertical(NInt(l), Ht, NZero, NZero, r, NZero, up, MajA, Ecc))
MInit == lat \in Lats /\ rate \in Rates /\ val = <<>>
         /\ track = <<>> /\ at = 0 /\ corr = <<>>
R(k) == NMul(NInt(k), NPow10(-6))
MNext == val = <<>> /\ val' = <<Val(lat, R(rate), NZero), Val(lat, R(rate), NRat(1, 100)), Val(lat, R(-rate), NZero)>>
         /\ UNCHANGED <<lat, rate, evars>>
Rest == val # <<>> /\ rate = 0 => val[1] = NZero
Equator == val # <<>> /\ lat = 0 =>
   LET w == R(rate) IN NNear(val[1], Milligal(NMul(NMul(w, NAdd(w, NMulI(EarthRate, 2))), NAdd(MajA, Ht))), NPow10(-9))
Heave == val # <<>> => NNear(NSub(val[1], val[2]), NInt(1000), NPow10(-9))
\* even part: the centrifugal acceleration of the ship's own motion, at least zero
Even == val # <<>> => NSign(NAdd(NAdd(val[1], val[3]), NPow10(-9))) >= 0
Vars == <<evars, lat, rate, val>>
=============================================================================
