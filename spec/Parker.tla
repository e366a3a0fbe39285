------------------------------- MODULE Parker -------------------------------
(* Parker's series for the gravity of a density contrast across a surface,   *)
(* as jobs of Spectral.                                                      *)
EXTENDS Elem
FAmount(j, w, v) ==
  IF j.npower = 0 THEN v
  ELSE LET x == NMul(v, j.kmag[w + 1]) IN
       \* sum for p = 1..n of v^p k^(p-1)/p! by Horner's rule
       NMul(v, FoldLeft(LAMBDA t, q : NAdd(NOne, NMul(t, NDivI(x, q))), NOne, [i \in 1..(j.npower - 1) |-> j.npower + 1 - i]))
FWeight(j, w) == j.weight[w + 1]
Big == 6673                     \* gravitational constant, times 10^-11 cgs or 10^-14 SI
TwoPi == NMulI(NPi, 2)
Mean(s) == NDivI(NSum(s), Len(s))
NearFold(p, n) == IF 2 * p <= n THEN p ELSE n - p
\* wavenumber magnitudes of an nx by ny grid with steps dkx, dky
Magnitudes(nx, ny, dkx, dky, F(_, _)) ==
  MkSeq(LAMBDA i : NSqrt(NAdd(NSqr(NMulI(dkx, F((i - 1) % nx, nx))), NSqr(NMulI(dky, F((i - 1) \div nx, ny))))), nx * ny)
Decay(mag, depth) == MkSeq(LAMBDA i : NExp(NNeg(NMul(mag[i], depth))), Len(mag))
Circle(n) == MkSeq(LAMBDA i : SinCosDeg(NDivI(NInt(360 * (i - 1)), n)), n)
Largest(s) == FoldLeft(LAMBDA t, x : NMax(t, NAbs(x)), NZero, s)
\* rounding of the floating-point transform: every coefficient is off by about
\* 10^-14 times the number of points times the largest amount
RoundBound(j, z) == LET b == NAdd(Largest(j.src), NDivI(Largest(z), 10)) n == j.nx * j.ny IN
  NMul(NMul(NMulI(NPow10(-13), n), NAbs(j.factor)),
       FoldLeft(LAMBDA t, w : NAdd(t, NMul(NAbs(j.weight[w + 1]), FAmount(j, w, b))), b, [i \in 1..(n - 1) |-> i]))
\* the job of grav1d_padded: profile z over x, extended at either end by twice its length, as seen in the points show
ProfileJob(x, z, zlev, rho, ref, show) ==
  LET n == Len(z) nx == 5 * n
      dx == NDivI(NSub(x[n], x[1]), n - 1)
      mag == Magnitudes(nx, 1, NDiv(TwoPi, NMulI(NAbs(dx), nx)), NZero, NearFold)
  IN [nx |-> nx, ny |-> 1, npower |-> 5, kmag |-> mag, show |-> show, outs |-> MkSeq(LAMBDA i : 2 * n + show[i], Len(show)),
      ref |-> ref,
      src |-> MkSeq(LAMBDA i : z[IMin(n, IMax(1, i - 2 * n))], nx),
      weight |-> Decay(mag, NSub(zlev, Mean(z))),
      \* 2 pi G rho, milligal for kg/m^3 and metres
      factor |-> NMul(NMul(NMul(TwoPi, rho), NMul(NInt(Big), NPow10(-11))), NRat(100, nx))]
=============================================================================
