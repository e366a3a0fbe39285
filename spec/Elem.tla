------------------------------- MODULE Elem -------------------------------
(***************************************************************************)
(* Elementary functions on the fixed-point numbers of Num: sine, cosine,   *)
(* exponential, error function, and complex arithmetic (a complex number   *)
(* is a pair of numbers).  All are plain power series after an exact       *)
(* argument reduction; errors are below about 10^-20 for results of unit   *)
(* size.                                                                   *)
(***************************************************************************)
EXTENDS Num

NPi == <<2643,3846,-2068,3590,-735,1416,3,0,0,0>>
NHalfPi == <<1322,1923,-1034,-3205,-367,-4292,2,0,0,0>>
NTwoOverPi == <<-4465,4308,-4187,2368,1977,-3634,1,0,0,0>>
NDegRad == <<-763,-423,-567,2520,-4671,175,0,0,0,0>>
NRadDeg == <<-1845,-2320,3209,3082,-2049,2958,57,0,0,0>>
NLn10 == <<-2009,-1598,457,2994,-1491,3026,2,0,0,0>>
NInvLn10 == <<1129,2765,2518,1903,-552,4343,0,0,0,0>>
NTwoOverSqrtPi == <<-3841,-2610,-4874,-2904,-2083,1284,1,0,0,0>>

\* sum of t_i with t_0 = first and t_i = t_(i-1) * z / d[i]
LOCAL Series(first, z, d) ==
  FoldLeft(LAMBDA s, q : LET t == NDivS(NMul(s[1], z), q) IN <<t, NAdd(s[2], t)>>,
           <<first, first>>, d)[2]
LOCAL SinD == [i \in 1..11 |-> -(2*i) * (2*i+1)]
LOCAL CosD == [i \in 1..12 |-> -(2*i-1) * (2*i)]
LOCAL ExpD == [i \in 1..13 |-> i]

\* <<sin r, cos r>> for |r| <= pi/4
LOCAL SCBase(r) == LET z == NSqr(r) IN <<Series(r, z, SinD), Series(NOne, z, CosD)>>
LOCAL SCTurn(sc, q) ==          \* add q quarter turns
  CASE q % 4 = 0 -> sc
    [] q % 4 = 1 -> <<sc[2], NNeg(sc[1])>>
    [] q % 4 = 2 -> <<NNeg(sc[1]), NNeg(sc[2])>>
    [] OTHER     -> <<NNeg(sc[2]), sc[1]>>
\* <<sin x, cos x>>, x in radians (|x| < 10^5) or in degrees
SinCos(x) == LET n == NRound(NMul(x, NTwoOverPi))
             IN SCTurn(SCBase(NSub(x, NMul(NInt(n), NHalfPi))), n)
SinCosDeg(x) == LET n == NRound(NDivI(x, 90))
                IN SCTurn(SCBase(NMul(NSub(x, NInt(90 * n)), NDegRad)), n)

\* e^x (0 when x < -60)
NExp(x) ==
  IF NLt(x, NInt(-60)) THEN NZero
  ELSE LET n == NRound(NMul(x, NInvLn10))
           r == NDivI(NSub(x, NMul(NInt(n), NLn10)), 16)
           e == Series(NOne, r, ExpD)
           e4 == NSqr(NSqr(NSqr(NSqr(e))))
       IN IF n < -24 THEN NZero ELSE NMul(e4, NPow10(n))

\* error function: series for |x| < 5.5, 1 beyond (the rest is below 10^-14)
NErf(x) ==
  LET z == NNeg(NSqr(x))
      lim == NRat(11, 2)
      n == 20 + 12 * NRound(NAbs(x))  \* enough terms for the series to converge
      m == n + 6 * NRound(NSqr(NMin(NAbs(x), lim)))
      s == FoldLeft(LAMBDA s, i : LET t == NDivI(NMul(s[1], z), i)
                                  IN <<t, NAdd(s[2], NDivI(t, 2*i+1))>>,
                    <<x, x>>, [i \in 1..m |-> i])
  IN IF NLt(lim, x) THEN NOne
     ELSE IF NLt(x, NNeg(lim)) THEN NNeg(NOne)
     ELSE NMul(NTwoOverSqrtPi, s[2])

\* complex numbers
CZero == <<NZero, NZero>>
CAdd(a, b) == <<NAdd(a[1], b[1]), NAdd(a[2], b[2])>>
CSub(a, b) == <<NSub(a[1], b[1]), NSub(a[2], b[2])>>
CMul(a, b) == <<NSub(NMul(a[1], b[1]), NMul(a[2], b[2])),
                NAdd(NMul(a[1], b[2]), NMul(a[2], b[1]))>>
CScale(a, r) == <<NMul(a[1], r), NMul(a[2], r)>>
CConj(a) == <<a[1], NNeg(a[2])>>
CSum(s) == FoldLeft(LAMBDA t, x : CAdd(t, x), CZero, s)
\* the n-th roots of unity e^(-2 pi i k / n), k = 0..n-1 (at index k+1)
CRoots(n) == [k \in 1..n |->
   LET sc == SinCosDeg(NDivI(NInt(360 * (k - 1)), n)) IN <<sc[2], NNeg(sc[1])>>]
\* sequences forced to be explicit tuples (TLC otherwise recomputes entries)
MkSeq(F(_), n) == FoldLeft(LAMBDA s, i : Append(s, F(i)), <<>>, Idx(n))
\* discrete Fourier transform of a sequence of complex numbers, and its inverse
CDft(v, w) == LET n == Len(v) IN
  FoldLeft(LAMBDA s, k : Append(s,
     FoldLeft(LAMBDA t, j : CAdd(t, CMul(v[j], w[(((k-1)*(j-1)) % n) + 1])), CZero, Idx(n))),
     <<>>, Idx(n))
CIdft(v, w) == LET n == Len(v) IN
  FoldLeft(LAMBDA s, k : Append(s, LET x ==
     FoldLeft(LAMBDA t, j : CAdd(t, CMul(v[j], w[((n * n - (k-1)*(j-1)) % n) + 1])), CZero, Idx(n))
     IN <<NDivI(x[1], n), NDivI(x[2], n)>>), <<>>, Idx(n))
=============================================================================
