------------------------------ MODULE MC_Frames -----------------------------
(* All exact headings with sine and cosine in fifths, thirteenths and       *)
(* 25ths, in every quadrant, and all vectors of a grid.                     *)
EXTENDS Frames
CONSTANT Size
VARIABLE start
Base == {<<0, 1>>, <<0, -1>>, <<1, 0>>, <<-1, 0>>}
Trip == {<<a, b>> \in (-Unit..Unit) \X (-Unit..Unit) : a*a + b*b = Unit*Unit}
MInit == /\ turn \in Trip /\ \E e \in -Size..Size, n \in -Size..Size : vec = <<e, n>> /\ start = <<e, n>>
         /\ frame = "geo"
MNext == FNext /\ UNCHANGED start
Sq(v) == v[1] * v[1] + v[2] * v[2]
KeepsLength == frame = "ship" => Sq(vec) = Unit * Unit * Sq(start)
Inverts == frame = "back" => vec = <<Unit * Unit * start[1], Unit * Unit * start[2]>>
\* a vector along the heading is purely along, with its length
AlongIsAlong == (frame = "ship" /\ start[1] * turn[2] = start[2] * turn[1]
                  /\ start[1] * turn[1] >= 0 /\ start[2] * turn[2] >= 0)
                => vec[1] = 0 /\ vec[2] >= 0
\* starboard of the heading is positive cross
StarboardPositive == (frame = "ship" /\ start = <<turn[2], -turn[1]>>) => vec = <<Unit * Unit, 0>>
=============================================================================
