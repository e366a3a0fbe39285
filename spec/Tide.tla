-------------------------------- MODULE Tide --------------------------------
(***************************************************************************)
(* Longman (1959), vertical tide of the moon and the sun, in milligal.     *)
(* A place is <<longitude E, latitude N>> in degrees and an altitude in    *)
(* metres; an instant is days since 1970 and seconds of the UTC day.       *)
(* Distances are in units of the mean distance of the body.                *)
(***************************************************************************)
EXTENDS Elem, Calendar
Dec(s) == FoldLeft(LAMBDA t, p : NAdd(t, NMul(NInt(p[1]), NPow10(p[2]))), NZero, s)
\* days from 1899-12-31 12:00 UTC
Days(day, sec) == NAdd(NInt(day + 25568), NDivI(NInt(sec - 43200), 86400))
Century(day, sec) == NDivI(Days(day, sec), 36525)
Poly(c, x) == FoldLeft(LAMBDA t, i : NAdd(NMul(t, x), c[Len(c) + 1 - i]), NZero, Idx(Len(c)))
\* orbital elements, in radians, as polynomials of the century
CoefS == <<Dec(<<<<472002343, -8>>, <<4, -9>>>>), Dec(<<<<8399, 0>>, <<709299, -6>>>>), Dec(<<<<440696, -10>>>>)>>
CoefP == <<Dec(<<<<583512471, -8>>, <<3, -9>>>>), Dec(<<<<710180093, -7>>, <<6, -8>>>>), Dec(<<<<-180545, -9>>>>), Dec(<<<<-21817, -11>>>>)>>
CoefH == <<Dec(<<<<488162792, -8>>>>), Dec(<<<<628331950, -6>>, <<9, -7>>>>), Dec(<<<<527962, -11>>>>)>>
CoefN == <<Dec(<<<<452358856, -8>>, <<4, -9>>>>), Dec(<<<<-337571530, -7>>, <<-3, -8>>>>), Dec(<<<<36749, -9>>>>)>>
CoefP1 == <<Dec(<<<<490822946, -8>>, <<1, -9>>>>), Dec(<<<<300052641, -10>>, <<6, -11>>>>), Dec(<<<<7902463, -12>>>>)>>
CoefE1 == <<Dec(<<<<1675104, -8>>>>), Dec(<<<<-418, -7>>>>), Dec(<<<<-126, -9>>>>)>>
Ecc == NRat(549, 10000)
Mratio == Dec(<<<<74804, -6>>>>)
Incl == SinCos(Dec(<<<<8979719, -8>>>>))
Obliq == SinCosDeg(Dec(<<<<23452, -3>>>>))
Love == Dec(<<<<11575, -4>>>>)                  \* 1 + 0.612 - 1.5 * 0.303
MoonDist == Dec(<<<<384402, -5>>>>)             \* 10^10 cm
SunDist == Dec(<<<<1495, -3>>>>)                \* 10^13 cm
\* mu M / c^2 and mu S / c1^2 in mGal
MoonPull == NDiv(NMul(Dec(<<<<6673, -3>>>>), Dec(<<<<73537, -4>>>>)), NSqr(MoonDist))
SunPull == NMulI(NDiv(NMul(Dec(<<<<6673, -3>>>>), Dec(<<<<1993, -3>>>>)), NSqr(SunDist)), 100)
EarthA == Dec(<<<<6378270, -6>>>>)               \* 10^8 cm ... 6.378270e8
\* angle addition: sine and cosine of a+b and of a-b from <<sin, cos>> pairs
Plus(a, b) == <<NAdd(NMul(a[1], b[2]), NMul(a[2], b[1])), NSub(NMul(a[2], b[2]), NMul(a[1], b[1]))>>
Minus(a, b) == <<NSub(NMul(a[1], b[2]), NMul(a[2], b[1])), NAdd(NMul(a[2], b[2]), NMul(a[1], b[1]))>>
HalfUp(x) == NDivI(NAdd(NOne, x), 2)
HalfDn(x) == NDivI(NSub(NOne, x), 2)
\* <<moon, sun>> in mGal including the Love factor
Pair(day, sec, lon, lat, alt) ==
  LET T == Century(day, sec)
      s == Poly(CoefS, T) p == Poly(CoefP, T) h == Poly(CoefH, T)
      node == SinCos(Poly(CoefN, T))
      p1 == Poly(CoefP1, T) e1 == Poly(CoefE1, T)
      cosI == NSub(NMul(Obliq[2], Incl[2]), NMul(NMul(Obliq[1], Incl[1]), node[2]))
      sinI == NSqrt(NSub(NOne, NSqr(cosI)))
      rI == NRecip(sinI)
      snu == NMul(NMul(Incl[1], node[1]), rI)
      nu == <<snu, NSqrt(NSub(NOne, NSqr(snu)))>>
      \* hour angle of the mean sun: 15 degrees per UTC hour past noon, plus longitude
      t == SinCosDeg(NAdd(NDivI(NInt(sec - 43200), 240), lon))
      hh == SinCos(h)
      chi1 == Plus(t, hh)
      chi == Minus(chi1, nu)
      alpha == <<NMul(NMul(Obliq[1], node[1]), rI),
                 NAdd(NMul(node[2], nu[2]), NMul(NMul(node[1], nu[1]), Obliq[2]))>>
      sp == SinCos(NSub(s, p))                          \* anomaly
      sp2 == Plus(sp, sp)
      ev == SinCos(NAdd(NSub(s, NMulI(h, 2)), p))      \* evection
      va == SinCos(NMulI(NSub(s, h), 2))               \* variation
      e == Ecc m == Mratio
      \* longitude of the moon reckoned from the equator: s - (N - alpha) + terms
      extra == NAdd(NAdd(NMul(NMulI(e, 2), sp[1]), NMul(NDivI(NMulI(NSqr(e), 5), 4), sp2[1])),
                    NAdd(NMul(NDivI(NMulI(NMul(m, e), 15), 4), ev[1]), NMul(NDivI(NMulI(NSqr(m), 11), 8), va[1])))
      Lm == Plus(Minus(SinCos(NAdd(s, extra)), node), alpha)
      Ls == SinCos(NAdd(h, NMul(NMulI(e1, 2), SinCos(NSub(h, p1))[1])))
      la == SinCosDeg(lat)
      ct == NAdd(NMul(NMul(la[1], sinI), Lm[1]),
              NMul(la[2], NAdd(NMul(HalfUp(cosI), Minus(Lm, chi)[2]), NMul(HalfDn(cosI), Plus(Lm, chi)[2]))))
      cp == NAdd(NMul(NMul(la[1], Obliq[1]), Ls[1]),
              NMul(la[2], NAdd(NMul(HalfUp(Obliq[2]), Minus(Ls, chi1)[2]), NMul(HalfDn(Obliq[2]), Plus(Ls, chi1)[2]))))
      C == NRecip(NSqrt(NAdd(NOne, NMul(Dec(<<<<6738, -6>>>>), NSqr(la[1])))))
      \* distance to the centre of the Earth, in units of 10^8 cm
      r == NAdd(NMul(C, EarthA), NMul(alt, NPow10(-6)))
      rm == NDivI(NDiv(r, MoonDist), 100)
      rs == NDivI(NDivI(NDiv(r, SunDist), 10000), 10)
      ap == NRecip(NSub(NOne, NSqr(e)))
      \* inverse distances
      dm == NAdd(NOne, NMul(ap, NAdd(NAdd(NMul(e, sp[2]), NMul(NSqr(e), sp2[2])),
                                     NAdd(NMul(NDivI(NMulI(NMul(m, e), 15), 8), ev[2]), NMul(NSqr(m), va[2])))))
      ds == NAdd(NOne, NMul(NMul(e1, SinCos(NSub(h, p1))[2]), NRecip(NSub(NOne, NSqr(e1)))))
      ct2 == NSqr(ct)
      dm3 == NMul(dm, NSqr(dm))
      gm == NMul(NMul(NMul(MoonPull, rm), dm3),
              NAdd(NSub(NMulI(ct2, 3), NOne),
                   NMul(NDivI(NMulI(NMul(rm, dm), 3), 2), NSub(NMulI(NMul(ct2, ct), 5), NMulI(ct, 3)))))
      gs == NMul(NMul(NMul(SunPull, rs), NMul(ds, NSqr(ds))), NSub(NMulI(NSqr(cp), 3), NOne))
  IN <<NMul(gm, Love), NMul(gs, Love)>>
=============================================================================
