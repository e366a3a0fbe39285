------------------------------ MODULE Platform ------------------------------
(***************************************************************************)
(* The gyro platform: each axis is a two-pole recursive filter from driving *)
(* acceleration (in units of gravity) to the tangent of the tilt, stepping  *)
(* sample by sample; the two tilts are then applied as rotations whose      *)
(* order alternates.                                                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt
CONSTANTS Zero, Add(_, _), Mul(_, _), Neg(_)
VARIABLES coef,      \* per axis <<b0, b1, b2, a1, a2>>
          drive,     \* per axis, the driving terms
          mem,       \* per axis <<x1, x2, y1, y2>>, the last two inputs and outputs
          tilt       \* per axis, tangents of the tilts so far
pvars == <<coef, drive, mem, tilt>>
PStart(c, d) == coef = c /\ drive = d /\ mem = <<<<Zero, Zero, Zero, Zero>>, <<Zero, Zero, Zero, Zero>>>>
                /\ tilt = <<<<>>, <<>>>>
PDone == Len(tilt[1]) = Len(drive[1])
Out(c, m, x) == Add(Add(Add(Mul(c[1], x), Mul(c[2], m[1])), Mul(c[3], m[2])),
                    Neg(Add(Mul(c[4], m[3]), Mul(c[5], m[4]))))
PNext ==
  /\ ~PDone
  /\ LET x(a) == drive[a][Len(tilt[1]) + 1]
         y(a) == Out(coef[a], mem[a], x(a))
     IN \E o \in {<<y(1), y(2)>>} :
          /\ tilt' = <<Append(tilt[1], o[1]), Append(tilt[2], o[2])>>
          /\ mem' = <<<<x(1), mem[1][1], o[1], mem[1][3]>>, <<x(2), mem[2][1], o[2], mem[2][3]>>>>
  /\ UNCHANGED <<coef, drive>>
\* the up vector from <<sin, cos>> of the cross tilt c and the long tilt l, sample number n from 0
Up(c, l, n) == IF n % 2 = 0 THEN <<Neg(Mul(c[1], l[2])), Neg(l[1]), Mul(c[2], l[2])>>
               ELSE <<Neg(c[1]), Neg(Mul(l[1], c[2])), Mul(l[2], c[2])>>
=============================================================================
