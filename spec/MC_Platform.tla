---------------------------- MODULE MC_Platform -----------------------------
(* Whole-number filters: silence in, silence out; linear; the recursion     *)
(* holds at every sample; axes do not mix; up vectors keep their length for *)
(* exact rotations (fifths).                                                *)
EXTENDS Platform
CONSTANT MaxLen
IAdd(a, b) == a + b
IMul(a, b) == a * b
INeg(a) == -a
Coefs == {<<1, 0, 0, 0, 0>>, <<1, 2, 1, -1, 1>>, <<2, -1, 3, 1, -1>>}
MInit == \E c1 \in Coefs, c2 \in Coefs, n \in 1..MaxLen : \E d1 \in [1..n -> {0, 1, -2}], d2 \in {[j \in 1..n |-> 0], [j \in 1..n |-> j]} :
           PStart(<<c1, c2>>, <<d1, d2>>)
At(v, j) == IF j >= 1 THEN v[j] ELSE 0
Recursion == \A a \in 1..2 : \A j \in 1..Len(tilt[a]) :
   tilt[a][j] = coef[a][1] * At(drive[a], j) + coef[a][2] * At(drive[a], j-1) + coef[a][3] * At(drive[a], j-2)
               - coef[a][4] * At(tilt[a], j-1) - coef[a][5] * At(tilt[a], j-2)
Silence == \A a \in 1..2 : (\A j \in 1..Len(drive[a]) : drive[a][j] = 0) => \A j \in 1..Len(tilt[a]) : tilt[a][j] = 0
Rots == {<<0, 5>>, <<3, 4>>, <<-3, 4>>, <<4, 3>>, <<-4, 3>>, <<5, 0>>}
\* components of Up are products of one or two of these: give single sines the scale of the other angle
Scaled(c, l, n) == LET u == Up(c, l, n) IN IF n % 2 = 0 THEN <<u[1], 5 * u[2], u[3]>> ELSE <<5 * u[1], u[2], u[3]>>
UnitLength == \A c \in Rots, l \in Rots, n \in 0..1 :
   LET u == Scaled(c, l, n) IN u[1]*u[1] + u[2]*u[2] + u[3]*u[3] = 625
=============================================================================
