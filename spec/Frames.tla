------------------------------- MODULE Frames -------------------------------
(***************************************************************************)
(* Course and the along/cross frame.  A direction is the pair <<sin, cos>> *)
(* of the heading (clockwise from north) times Unit.  A vector is given by *)
(* its components <<east, north>>; the same vector in the ship's frame is  *)
(* <<cross, along>>.                                                       *)
(***************************************************************************)
EXTENDS Integers, Sequences
CONSTANTS Unit
VARIABLES vec, frame, turn       \* the vector, the frame it is expressed in, the direction in use
fvars == <<vec, frame, turn>>
ToShip(d, v) == <<v[1] * d[2] - v[2] * d[1], v[1] * d[1] + v[2] * d[2]>>
ToGeo(d, v) == <<v[1] * d[2] + v[2] * d[1], v[2] * d[2] - v[1] * d[1]>>
Rotate == frame = "geo" /\ frame' = "ship" /\ vec' = ToShip(turn, vec) /\ UNCHANGED turn
Unrotate == frame = "ship" /\ frame' = "back" /\ vec' = ToGeo(turn, vec) /\ UNCHANGED turn
FNext == Rotate \/ Unrotate
=============================================================================
