------------------------------ MODULE Leveling ------------------------------
(***************************************************************************)
(* From a track to the attitude of the gyro platform: positions are        *)
(* differentiated to velocities and again to accelerations, the course     *)
(* turns the accelerations into the ship's frame, and they drive the tilt  *)
(* of the platform's two axes.  Missing positions make what is derived     *)
(* from them missing; missing accelerations do not drive the platform.     *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt
CONSTANTS Zero, Add(_, _), Mul(_, _), MulI(_, _), Neg(_),
          Missing(_),              \* is a number missing
          Metric(_, _),            \* position, rates of longitude and latitude (times 2520): velocity <<east, north>>
          Scale(_),                \* 2520 times the rate of a velocity: acceleration
          Course(_),               \* velocity: <<sin, cos>> of the course, north if the velocity is missing
          Force(_, _)              \* sample number, acceleration: drive of the platform
VARIABLES step,       \* "lon", "lat", "east", "north", "ship", "tilt"
          track,      \* <<lon, lat>> of the samples
          half,       \* result of the first of two differentiations
          vel, acc,   \* <<east, north>> of the samples
          ship,       \* <<cross, along>> accelerations
          src, pos, out,                  \* the differentiator
          coef, drive, mem, tilt          \* the platform
lvars == <<step, track, half, vel, acc, ship, src, pos, out, coef, drive, mem, tilt>>
MAdd(a, b) == IF Missing(a) \/ Missing(b) THEN <<>> ELSE Add(a, b)
MMulI(a, m) == IF Missing(a) THEN <<>> ELSE MulI(a, m)
TY == INSTANCE Taylor WITH Add <- MAdd, MulI <- MMulI
PL == INSTANCE Platform
Each(F(_), n) == FoldLeft(LAMBDA s, i : Append(s, F(i)), <<>>, [i \in 1..n |-> i])
Feed(s) == src' = s /\ pos' = 0 /\ out' = <<>>
N == Len(track)

LStart(t, c) ==
  /\ step = "lon" /\ track = t /\ half = <<>> /\ vel = <<>> /\ acc = <<>> /\ ship = <<>>
  /\ TY!TayStart([i \in 1..Len(t) |-> t[i][1]])
  /\ PL!PStart(c, <<<<>>, <<>>>>)
Slide == /\ step \in {"lon", "lat", "east", "north"} /\ ~TY!TayDone /\ TY!TayNext
         /\ UNCHANGED <<step, track, half, vel, acc, ship, coef, drive, mem, tilt>>
Turn(from, to, s) == /\ step = from /\ TY!TayDone /\ step' = to /\ half' = out /\ Feed(s)
                     /\ UNCHANGED <<track, vel, acc, ship, coef, drive, mem, tilt>>
Longitudes == Turn("lon", "lat", Each(LAMBDA i : track[i][2], N))
Latitudes ==
  /\ step = "lat" /\ TY!TayDone /\ step' = "east"
  /\ \E v \in {Each(LAMBDA i : IF Missing(half[i]) \/ Missing(out[i]) \/ Missing(track[i][1]) \/ Missing(track[i][2]) THEN << <<>>, <<>> >>
                    ELSE Metric(track[i], <<half[i], out[i]>>), N)} :
       /\ vel' = v /\ Feed(Each(LAMBDA i : v[i][1], N))
  /\ UNCHANGED <<track, half, acc, ship, coef, drive, mem, tilt>>
East == Turn("east", "north", Each(LAMBDA i : vel[i][2], N))
North ==
  /\ step = "north" /\ TY!TayDone /\ step' = "ship"
  /\ acc' = Each(LAMBDA i : IF Missing(half[i]) \/ Missing(out[i]) \/ Missing(vel[i][1]) THEN << <<>>, <<>> >> ELSE <<Scale(half[i]), Scale(out[i])>>, N)
  /\ UNCHANGED <<track, half, vel, ship, src, pos, out, coef, drive, mem, tilt>>
ToShip(d, v) == <<Add(Mul(v[1], d[2]), Neg(Mul(v[2], d[1]))), Add(Mul(v[1], d[1]), Mul(v[2], d[2]))>>
Turned ==
  /\ step = "ship" /\ step' = "tilt"
  /\ \E s \in {Each(LAMBDA i : IF Missing(acc[i][1]) THEN << <<>>, <<>> >> ELSE ToShip(Course(vel[i]), acc[i]), N)} :
       /\ ship' = s
       /\ drive' = <<Each(LAMBDA i : IF Missing(s[i][1]) THEN Zero ELSE Force(i, s[i][1]), N),
                     Each(LAMBDA i : IF Missing(s[i][2]) THEN Zero ELSE Force(i, s[i][2]), N)>>
  /\ UNCHANGED <<track, half, vel, acc, src, pos, out, coef, mem, tilt>>
Tilt == /\ step = "tilt" /\ PL!PNext
        /\ UNCHANGED <<step, track, half, vel, acc, ship, src, pos, out>>
LDone == step = "tilt" /\ PL!PDone
LNext == Slide \/ Longitudes \/ Latitudes \/ East \/ North \/ Turned \/ Tilt
-----------------------------------------------------------------------------
\* five samples at either end have no velocity, ten no acceleration; no others are lost without a gap
LEdges == step = "tilt" =>
  \A i \in 1..N : /\ i <= 5 \/ i > N - 5 => Missing(vel[i][1])
                  /\ i <= 10 \/ i > N - 10 => Missing(acc[i][1])
=============================================================================
