----------------------------- MODULE MC_Thermal -----------------------------
(* Walks down in depth and on in age over a grid with L = Nodes units, both *)
(* cooling models in lock step.  Temperatures rise with depth and fall with *)
(* age, the sea floor sinks, the boundary values hold, and the two models   *)
(* (an error function and a sine series) agree while the plate's bottom is  *)
(* not felt.  At every age an isotherm is bracketed by bisection and        *)
(* searched on the grid: both find the same place.                          *)
EXTENDS Thermal
CONSTANTS Nodes, First, Ages, Scale
VARIABLES z, age, kt, dec, half, plate, hs, ps
vars == <<z, age, kt, dec, half, plate, hs, ps>>
L == NInt(Nodes)
KtAt(j) == NDivI(NMul(NInt(j * j), NSqr(L)), Scale)
Vals == /\ kt' = KtAt(age') /\ dec' = PlateDecays(kt', L)
        /\ half' = HalfFraction(NInt(z'), kt') /\ plate' = PlateFraction(NInt(z'), L, PlateSines(NInt(z'), L), dec')
        /\ hs' = HalfSink(kt') /\ ps' = PlateSink(L, dec')
MInit == /\ z = 0 /\ age = First /\ kt = KtAt(First) /\ dec = PlateDecays(KtAt(First), L)
         /\ half = NZero /\ plate = NZero /\ hs = HalfSink(KtAt(First)) /\ ps = PlateSink(L, PlateDecays(KtAt(First), L))
MNext == \/ z < Nodes /\ z' = z + 1 /\ age' = age /\ Vals
         \/ age < Ages /\ age' = age + 1 /\ z' = z /\ Vals
E6 == NPow10(-6)
Bounds == /\ NSign(half) >= 0 /\ NLe(half, NOne) /\ NLe(NNeg(E6), plate) /\ NLe(plate, NAdd(NOne, E6))
          /\ (z = 0 => half = NZero /\ NNear(plate, NZero, NPow10(-20))) /\ (z = Nodes => NNear(plate, NOne, NPow10(-20)))
Warmer == [][(z' > z => NLt(half, half') /\ NLt(plate, NAdd(plate', E6)))
             /\ (age' > age /\ z > 0 /\ z < Nodes => NLt(half', half) /\ NLt(plate', NAdd(plate, E6)))
             /\ (age' > age => NLt(hs, hs') /\ NLt(ps, ps'))]_vars
\* kt/L^2 between 0.01 and 0.025, upper half of the plate
InRange == NLe(NRat(1, 100), NDiv(kt, NSqr(L))) /\ NLe(NDiv(kt, NSqr(L)), NRat(1, 40)) /\ 2 * z <= Nodes
Agree == InRange => NNear(half, plate, NPow10(-6)) /\ NNear(hs, ps, NMul(L, NPow10(-4)))
\* bisection of the half space for the temperature of a node finds the node
Bisect(target) == FoldLeft(LAMBDA b, i : LET m == NDivI(NAdd(b[1], b[2]), 2) IN
                             IF NLt(HalfFraction(m, kt), target) THEN <<m, b[2]>> ELSE <<b[1], m>>, <<NZero, NInt(Nodes + 1)>>, Idx(30))
Inverts == z > 0 /\ NLt(half, NRat(9999, 10000)) /\ age % 3 = 0 => NNear(Bisect(half)[2], NInt(z), NPow10(-6))
\* the grid search returns the node itself
Search == z > 0 => LET t == MkSeq(LAMBDA i : HalfFraction(NInt(i), kt), Nodes) IN NLt(half, NRat(9999, 10000)) => Nearest(t, half) = z
=============================================================================
