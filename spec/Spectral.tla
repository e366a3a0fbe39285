------------------------------ MODULE Spectral ------------------------------
(***************************************************************************)
(* Filtering a real field on a periodic grid of nx by ny points, one       *)
(* wavenumber at a time.  For wavenumber (a, b) the field values enter     *)
(* through Amount(job, k, v) (which may depend on the wavenumber), are     *)
(* projected on the cosine and the sine of the phase, and the projection,  *)
(* times the filter weight, is added to every output point.  A wavenumber  *)
(* and its mirror (-a, -b) are handled together.  The zero wavenumber is   *)
(* left out.  Positions are numbered from 0: p = y * nx + x.               *)
(* Points holding the value job.ref need no projection: for a wavenumber   *)
(* other than zero the phases sum to nothing, so only the amounts above    *)
(* that of job.ref count (fields that are mostly flat stay cheap).         *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt
CONSTANTS Zero, Add(_, _), Sub(_, _), Mul(_, _),
          Amount(_, _, _),       \* (job, wavenumber, field value)
          Weight(_, _)           \* (job, position of the wavenumber)
VARIABLES job,    \* [nx, ny, src, ref, outs, ...]
          roots,  \* roots[i+1] = <<sin, cos>> of the i-th of Period(job) equal parts of the circle
          wave,   \* position of the next wavenumber
          acc     \* sums so far, one per output point: N times the result
spvars == <<job, roots, wave, acc>>
X(j, p) == p % j.nx
Y(j, p) == p \div j.nx
Size(j) == j.nx * j.ny
Mirror(j, p) == ((j.ny - Y(j, p)) % j.ny) * j.nx + ((j.nx - X(j, p)) % j.nx)
\* the phases are multiples of 1/Period of the circle
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Period(j) == (j.nx * j.ny) \div Gcd(j.nx, j.ny)
Phase(j, w, p, per) == (((X(j, w) * X(j, p)) % j.nx) * (per \div j.nx) + ((Y(j, w) * Y(j, p)) % j.ny) * (per \div j.ny)) % per
SpStart(j, r) == job = j /\ roots = r /\ wave = 1 /\ acc = [i \in 1..Len(j.outs) |-> Zero]
SpDone == wave >= Size(job)
Positions(j) == SelectSeq([i \in 1..Size(j) |-> i - 1], LAMBDA p : j.src[p + 1] # j.ref)
Project(w, per) == \* on the sine and on the cosine
  LET flat == Amount(job, w, job.ref) IN
  FoldLeft(LAMBDA t, p : LET a == Sub(Amount(job, w, job.src[p + 1]), flat) r == roots[Phase(job, w, p, per) + 1]
                         IN <<Add(t[1], Mul(a, r[1])), Add(t[2], Mul(a, r[2]))>>, <<Zero, Zero>>, Positions(job))
SpNext ==
  /\ ~SpDone /\ wave' = wave + 1 /\ UNCHANGED <<job, roots>>
  /\ LET m == Mirror(job, wave) per == Period(job) IN
     IF m < wave THEN UNCHANGED acc
     ELSE \E f \in {IF m = wave THEN Weight(job, wave) ELSE Add(Weight(job, wave), Weight(job, m))} :
          IF f = Zero THEN UNCHANGED acc
          ELSE \E s \in {LET q == Project(wave, per) IN <<Mul(f, q[1]), Mul(f, q[2])>>} :
               acc' = [i \in 1..Len(acc) |-> LET r == roots[Phase(job, wave, job.outs[i], per) + 1]
                        IN Add(acc[i], Add(Mul(s[1], r[1]), Mul(s[2], r[2])))]
=============================================================================
