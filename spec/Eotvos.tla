------------------------------- MODULE Eotvos -------------------------------
(***************************************************************************)
(* Harlan's (1968) ellipsoidal Eotvos correction.  A window of three       *)
(* samples slides over the track; the middle one gets the vertical         *)
(* inertial acceleration of the platform minus the centrifugal             *)
(* acceleration of the Earth at rest.  The first and the last sample       *)
(* repeat their neighbours.                                                *)
(***************************************************************************)
EXTENDS Elem
VARIABLES track, at, corr     \* track: <<lon, lat, height>> in degrees and metres
evars == <<track, at, corr>>
EarthRate == NMul(NInt(729211500), NMul(NPow10(-13), NOne))   \* 0.00007292115 rad/s
\* centred differences, per sample: half the difference of the neighbours, second difference
Diff1(y, i) == NDivI(NSub(y[i+1], y[i-1]), 2)
Diff2(y, i) == NAdd(NSub(y[i-1], NMulI(y[i], 2)), y[i+1])
\* state of motion: latitude (degrees), height, and the derivatives in radians or metres, per second
Vertical(lat, ht, dlat, ddlat, dlon, dht, ddht, a, ecc) ==
  LET sc == SinCosDeg(lat) sl == sc[1] cl == sc[2]
      s2 == NMulI(NMul(sl, cl), 2)
      c2 == NSub(NOne, NMulI(NSqr(sl), 2))
      ae == NMul(a, ecc)
      rp == NSub(a, NMul(ae, NSqr(sl)))
      drp == NNeg(NMul(NMul(ae, dlat), s2))
      ddrp == NSub(NNeg(NMul(NMul(ae, ddlat), s2)), NMulI(NMul(NMul(ae, NSqr(dlat)), c2), 2))
      x == NMul(ecc, s2)                          \* tangent of the deviation of the normal
      cD == NRecip(NSqrt(NAdd(NOne, NSqr(x)))) sD == NMul(x, cD)
      dD == NMulI(NMul(NMul(dlat, ecc), c2), 2)
      ddD == NSub(NMulI(NMul(NMul(ddlat, ecc), c2), 2), NMulI(NMul(NMul(NSqr(dlat), ecc), s2), 4))
      rx == NNeg(NMul(rp, sD))
      rz == NSub(NNeg(NMul(rp, cD)), ht)
      rdx == NSub(NNeg(NMul(drp, sD)), NMul(NMul(rp, dD), cD))
      ck == NSub(NAdd(NAdd(NNeg(NMul(ddrp, cD)), NMulI(NMul(NMul(drp, dD), sD), 2)),
                      NMul(rp, NAdd(NMul(ddD, sD), NMul(NSqr(dD), cD)))), ddht)
      w == NAdd(dlon, EarthRate)
      wx == NMul(w, cl) wz == NNeg(NMul(w, sl))
      ex == NMul(EarthRate, cl) ez == NNeg(NMul(EarthRate, sl))
      Centri(u, v) == NMul(u, NSub(NMul(v, rx), NMul(u, rz)))
  IN NSub(NSub(NAdd(NAdd(NAdd(ck, NMulI(NMul(dlat, rdx), 2)), NMul(ddlat, rx)), Centri(wx, wz)),
               NMul(NSqr(dlat), rz)), Centri(ex, ez))
Milligal(x) == NMulI(x, 100000)
EStart(t) == track = t /\ at = 2 /\ corr = <<>>
EDone == at > Len(track.lat) - 1
Correction(t, i, samp, a, ecc) ==
  LET v(d) == NMul(NMul(d, NDegRad), samp)
      v2(d) == NMul(v(d), samp)
  IN Milligal(Vertical(t.lat[i], t.ht[i], v(Diff1(t.lat, i)), v2(Diff2(t.lat, i)), v(Diff1(t.lon, i)),
        NMul(Diff1(t.ht, i), samp), NMul(NMul(Diff2(t.ht, i), samp), samp), a, ecc))
ENext == /\ ~EDone /\ at' = at + 1 /\ UNCHANGED track
         /\ corr' = Append(corr, Correction(track, at, track.samp, track.a, track.ecc))
\* with the end samples repeated
Whole == <<corr[1]>> \o corr \o <<corr[Len(corr)]>>
=============================================================================
