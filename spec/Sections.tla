------------------------------ MODULE Sections ------------------------------
(***************************************************************************)
(* Cutting a series of n samples into continuous sections.  cuts holds the *)
(* positions i (in order) after which the time step to sample i+1 is too   *)
(* long.  Sections shorter than MinLen are skipped; each other one yields  *)
(* its length minus Trim rows, in order.                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt
CONSTANTS MinLen, Trim
VARIABLES n, cuts, start, kept, rows     \* rows[r] = <<section start, row within the section from 0>>
svars == <<n, cuts, start, kept, rows>>
SStart(len, c) == n = len /\ cuts = c /\ start = 1 /\ kept = <<>> /\ rows = 0
SDone == start > n
SNext ==
  /\ ~SDone
  /\ LET end == IF cuts = <<>> THEN n ELSE Head(cuts)
         len == end - start + 1
     IN /\ kept' = IF len < MinLen THEN kept ELSE Append(kept, <<start, end>>)
        /\ rows' = IF len < MinLen THEN rows ELSE rows + len - Trim
        /\ start' = end + 1
        /\ cuts' = IF cuts = <<>> THEN cuts ELSE Tail(cuts)
  /\ UNCHANGED n
\* the section and the row in it (from 0) of row r (from 1) of the result
Locate(sec, r) == FoldLeft(LAMBDA s, x : LET m == x[2] - x[1] + 1 - Trim IN
                     IF s[1] # 0 THEN s ELSE IF s[3] <= m THEN <<x[1], s[3] - 1, 0>> ELSE <<0, 0, s[3] - m>>,
                   <<0, 0, r>>, sec)
=============================================================================
