---------------------------- MODULE MC_Leveling -----------------------------
(* Ships on a plane with exact (whole-number) tracks of constant            *)
(* acceleration: the chain gives the velocity and the acceleration          *)
(* (differentiated, so times 2520 and 2520^2), the power of the along-track *)
(* and the turning of the cross-track acceleration, and steady ships leave  *)
(* the platform level.                                                      *)
EXTENDS Leveling, FiniteSets
CONSTANT MaxLen
VARIABLES law       \* <<position, velocity, acceleration>>, each <<east, north>>
\* numbers are one-tuples, <<>> is missing
IZero == <<0>>
IAdd(a, b) == <<a[1] + b[1]>>
IMul(a, b) == <<a[1] * b[1]>>
IMulI(a, m) == <<a[1] * m>>
INeg(a) == <<-a[1]>>
IMissing(a) == a = <<>>
IMetric(p, r) == <<<<r[1][1] \div 2520>>, <<r[2][1] \div 2520>>>>      \* exact for these tracks
IScale(a) == <<a[1] \div 2520>>
\* speeds are compared squared, so the course need not be normalised
ICourse(v) == IF v[1] = <<>> THEN <<IZero, <<1>>>> ELSE v
IForce(i, a) == a
Dirs == {<<1, 0>>, <<0, -1>>, <<3, 4>>, <<-1, 2>>}
Times(a, d) == <<a * d[1], a * d[2]>>
At(l, t) == [c \in 1..2 |-> l[1][c] + l[2][c] * t + l[3][c] * t * t]
MInit == /\ \E d \in Dirs, s \in {0, 1, 5}, e \in Dirs, a \in {-1, 0, 2}, p \in {<<0, 0>>, <<-7, 3>>} :
              law = <<p, Times(s, d), Times(a, e)>>
         /\ \E n \in {11, 20, 21, 24, MaxLen}, gap \in {0, 11, 3} :
              LStart([i \in 1..n |-> IF i = gap THEN << <<>>, <<>> >> ELSE <<<<At(law, i)[1]>>, <<At(law, i)[2]>>>>],
                     <<<<<<1>>, <<2>>, <<1>>, <<-1>>, <<1>>>>, <<<<2>>, <<-1>>, <<3>>, <<1>>, <<-1>>>>>>)
MNext == LNext /\ UNCHANGED law
VelAt(i) == <<<<law[2][1] + 2 * law[3][1] * i>>, <<law[2][2] + 2 * law[3][2] * i>>>>
Gap(i) == \E j \in 1..N : track[j][1] = <<>> /\ j - i \in -5..5
Gap2(i) == \E j \in 1..N : track[j][1] = <<>> /\ j - i \in -10..10
Kinematics == step = "tilt" => \A i \in 1..N :
   /\ i \in 6..(N - 5) /\ ~Gap(i) => vel[i] = VelAt(i)
   /\ i \in 11..(N - 10) /\ ~Gap2(i) => acc[i] = <<<<2 * law[3][1]>>, <<2 * law[3][2]>>>>
   /\ (i \in 6..(N - 5) /\ Gap(i)) => (vel[i][1] = <<>> \/ track[i][1] # <<>>)
Turning == step = "tilt" => \A i \in 1..N : ship[i][1] # <<>> /\ vel[i][1] # <<>> =>
   /\ ship[i][2][1] = vel[i][1][1] * acc[i][1][1] + vel[i][2][1] * acc[i][2][1]
   /\ ship[i][1][1] = acc[i][1][1] * vel[i][2][1] - acc[i][2][1] * vel[i][1][1]
Steady == (law[3] = <<0, 0>> /\ step = "tilt") => \A a \in 1..2 : \A i \in 1..Len(tilt[a]) : tilt[a][i] = IZero
Straight == (step = "tilt" /\ law[2][1] * law[3][2] = law[2][2] * law[3][1]) => \A i \in 1..N : ship[i][1] # <<>> => ship[i][1] = IZero
=============================================================================
