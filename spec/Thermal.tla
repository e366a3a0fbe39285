------------------------------ MODULE Thermal -------------------------------
(* Cooling of the oceanic lithosphere (Turcotte & Schubert): the half space *)
(* and the plate of thickness L, in terms of kt = diffusivity times age.    *)
EXTENDS Elem
\* diffusivity times seconds per (Julian) year, times years
YearK(kappa) == NMulI(NMulI(kappa, 157788), 200)
KtOfAge(kappa, myr) == NMul(NMulI(NMulI(YearK(kappa), 1000), 1000), myr)
KtOfDistance(kappa, x, rate) == NDiv(NMul(YearK(kappa), NAbs(x)), rate)
\* half space: fraction of the mantle temperature at depth z
HalfFraction(z, kt) ==
  LET d == NMulI(NSqrt(kt), 2) IN
  IF NLt(NMulI(d, 6), NAbs(z)) THEN (IF NSign(z) > 0 THEN NOne ELSE NNeg(NOne)) ELSE NErf(NDiv(z, d))
HalfDefined(z, kt) == NSign(kt) > 0 \/ NSign(z) # 0
HalfSink(kt) == NMulI(NSqrt(NDiv(kt, NPi)), 2)       \* metres of integrated cooling: W = rhom a Tm/(rhom-rhow) times this
\* plate: the part of each term that depends on depth and on age
Terms == 10
PlateSines(z, L) == \* sin(n pi z/L) * 2/(n pi)
  LET sc == SinCosDeg(NDiv(NMulI(z, 180), L))
      s == FoldLeft(LAMBDA a, n : \* angle addition
             LET e == IF n = 1 THEN sc ELSE
                   <<NAdd(NMul(a[1][1], sc[2]), NMul(a[1][2], sc[1])), NSub(NMul(a[1][2], sc[2]), NMul(a[1][1], sc[1]))>>
             IN <<e, Append(a[2], NMul(NDivI(e[1], n), NTwoOverPi))>>, <<sc, <<>> >>, Idx(Terms))
  IN s[2]
PlateDecays(kt, L) == \* exp(-n^2 pi^2 kt/L^2)
  LET q == NExp(NNeg(NDiv(NMul(NSqr(NPi), NDiv(kt, L)), L))) q2 == NSqr(q)
      s == FoldLeft(LAMBDA a, n : \* a = <<q^(2n-1), q^((n-1)^2), list>>
             LET e == NMul(a[2], a[1]) IN <<NMul(a[1], q2), e, Append(a[3], e)>>, <<q, NOne, <<>> >>, Idx(Terms))
  IN s[3]
PlateFraction(z, L, sines, decays) ==
  IF NLt(L, z) THEN NOne
  ELSE NAdd(NDiv(z, L), FoldLeft(LAMBDA a, n : NAdd(a, NMul(sines[n], decays[n])), NZero, Idx(Terms)))
PlateSink(L, decays) == \* the series 1/2 - 4/pi^2 sum over odd n of e/n^2, cut after n = 5
  NMul(L, NSub(NRat(1, 2), FoldLeft(LAMBDA a, n : NAdd(a, NMul(NSqr(NTwoOverPi), NDivI(decays[n], n * n))), NZero, <<1, 3, 5>>)))
\* subsidence of the sea floor
Subsidence(rhom, rhow, a, Tm, sink) == NDiv(NMul(NMul(NMul(rhom, a), Tm), sink), NSub(rhom, rhow))
\* search for the isotherm: the first node with the smallest misfit
Nearest(temps, target) ==
  FoldLeft(LAMBDA b, i : IF b = 0 \/ NLt(NAbs(NSub(temps[i], target)), NAbs(NSub(temps[b], target))) THEN i ELSE b, 0, Idx(Len(temps)))
=============================================================================
