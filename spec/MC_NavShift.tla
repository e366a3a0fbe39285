---------------------------- MODULE MC_NavShift ----------------------------
(* All short tracks over longitudes on both sides of both meridians. *)
EXTENDS MC_NavSeries
CONSTANTS Lens
SInit == \E n \in Lens : \E f \in [1..n -> 0..Len(Lons)] :
   StartWith([parser |-> TRUE, decim |-> 0,
              files |-> << [i \in 1..n |-> <<1, i, f[i]>>] >>])
LonsB == <<719, 720, -720, -719, -717>>
LonsC == <<718, 720, -720, -719, 2, 0, -2>>
=============================================================================
