----------------------------- MODULE MC_Taylor ------------------------------
(* Exactness of the differentiator on every monomial up to degree ten.      *)
EXTENDS Taylor, Num
CONSTANT MaxDegree
VARIABLES deg, first
Mono(x, d) == NPow(NInt(x), d)
MInit == /\ deg \in 0..MaxDegree /\ first \in -8..2 /\ \E n \in {11, 13} :
            TayStart([i \in 1..n |-> Mono(first + i - 1, deg)])
MNext == TayNext /\ UNCHANGED <<deg, first>>
\* 2520 * d * x^(d-1)
Slope(x, d) == IF d = 0 THEN NZero ELSE NMulI(NMulI(Mono(x, d - 1), d), 2520)
Exact == \A i \in 1..Len(out) : out[i] # <<>> => out[i] = Slope(first + i - 1, deg)
=============================================================================
