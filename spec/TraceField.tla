----------------------------- MODULE TraceField -----------------------------
(* Recorded calls of the Fourier-domain gravity functions, run through      *)
(* Spectral with exact arithmetic:                                          *)
(*  line   grav1d_padded: Parker's series on the edge-padded profile        *)
(*  grid   grav2d_folding: Parker's series, optionally mirrored             *)
(*  layer  grav2d_layer_variable_density: response of a flat layer          *)
(*  crust  crustal_thickness_2D: tapered downward continuation              *)
EXTENDS Parker, Json, IOUtils
CONSTANTS KnownLayer, KnownOrientation    \* names of the known findings
Cases == JsonDeserialize(IOEnv.TRACE)
VARIABLES job, roots, wave, acc,     \* of the machine
          k, phase, dev, devacc      \* phase 0 set up, 1 running, 2 running the deviant weights, 3 judged
INSTANCE Spectral WITH Zero <- NZero, Add <- NAdd, Sub <- NSub, Mul <- NMul, Amount <- FAmount, Weight <- FWeight
Q == Cases[k].req
O == Cases[k].obs
\* the output points to look at: those picked, or all
Shown(n) == IF Q.pick = <<>> THEN MkSeq(LAMBDA i : i - 1, n) ELSE Q.pick
LineJob(q) == ProfileJob(q.x, q.z, q.zlev, q.rho, q.z[q.ref], Shown(Len(q.z)))
Bounce(p, n) == IF p < n THEN p ELSE 2 * n - 1 - p
GridJob(q) ==
  LET nx == IF q.fold THEN 2 * q.nx ELSE q.nx
      ny == IF q.fold THEN 2 * q.ny ELSE q.ny
      m == Mean(q.z)
      mag == Magnitudes(nx, ny, NDiv(TwoPi, NMulI(NMulI(q.dx, 1000), nx)), NDiv(TwoPi, NMulI(NMulI(q.dy, 1000), ny)), NearFold)
  IN [nx |-> nx, ny |-> ny, npower |-> q.npower, kmag |-> mag,
      show |-> Shown(q.nx * q.ny), ref |-> NSub(m, q.z[q.ref]),
      outs |-> LET p == Shown(q.nx * q.ny) IN MkSeq(LAMBDA i : (p[i] \div q.nx) * nx + (p[i] % q.nx), Len(p)),
      src |-> MkSeq(LAMBDA i : NSub(m, q.z[Bounce((i - 1) \div nx, q.ny) * q.nx + Bounce((i - 1) % nx, q.nx) + 1]), nx * ny),
      weight |-> Decay(mag, NAdd(m, q.dz)),
      \* 2 pi G drho, milligal for g/cm^3 and metres
      factor |-> NMul(NMul(NMul(TwoPi, q.rho), NMul(NInt(Big), NPow10(-6))), NRat(1, nx * ny))]
LayerWeight(mag, z1, z2) ==
  MkSeq(LAMBDA i : IF NSign(mag[i]) = 0 THEN NZero
                   ELSE NDiv(NSub(NExp(NNeg(NMul(mag[i], z1))), NExp(NNeg(NMul(mag[i], z2)))), mag[i]), Len(mag))
LayerJob(q, F(_, _)) ==
  LET mag == Magnitudes(q.nx, q.ny, NDiv(TwoPi, NMulI(q.dx, q.nx)), NDiv(TwoPi, NMulI(q.dy, q.ny)), F)
  IN [nx |-> q.nx, ny |-> q.ny, npower |-> 0, kmag |-> mag, show |-> Shown(q.nx * q.ny), outs |-> Shown(q.nx * q.ny),
      src |-> q.z, ref |-> q.z[q.ref], weight |-> LayerWeight(mag, q.z1, q.z2),
      \* 2 pi G, milligal for kg/m^3 and kilometres
      factor |-> NMul(NMul(TwoPi, NMul(NInt(Big), NPow10(-6))), NRat(1, q.nx * q.ny))]
\* the known deviation of the layer function: one index past the folding frequency keeps its sign
LateFold(p, n) == IF 2 * p <= n + 2 THEN p ELSE n - p
Taper(kk, k1, k2) ==
  IF NLe(kk, k1) THEN NOne ELSE IF NLt(k2, kk) THEN NZero
  ELSE NDivI(NAdd(NOne, SinCosDeg(NMulI(NDiv(NSub(kk, k1), NSub(k2, k1)), 180))[2]), 2)
\* where the known deviation of crustal_thickness_2D puts the value of a point
Opposite(q, p) == ((q.nx - (p \div q.ny)) % q.nx) * q.ny + ((q.ny - (p % q.ny)) % q.ny)
After(q, p) == (((p \div q.ny) + 1) % q.nx) * q.ny + (((p % q.ny) + 1) % q.ny)
CrustJob(q) == \* the first index runs along x; the machine's fast axis is the second index
  LET mag == Magnitudes(q.ny, q.nx, IF NSign(q.dy) = 0 THEN NZero ELSE NDiv(TwoPi, NMulI(q.dy, q.ny)), NDiv(TwoPi, NMulI(q.dx, q.nx)), NearFold)
      k1 == NDiv(TwoPi, q.wlarge) k2 == NDiv(TwoPi, q.wsmall)
      tap == MkSeq(LAMBDA i : Taper(mag[i], k1, k2), Len(mag))
      m == Mean(q.z)
  IN [nx |-> q.ny, ny |-> q.nx, npower |-> 0, kmag |-> mag, show |-> Shown(q.nx * q.ny),
      outs |-> IF q.pick = <<>> THEN Shown(q.nx * q.ny) ELSE q.pick \o MkSeq(LAMBDA i : Opposite(q, q.pick[i]), Len(q.pick)) \o MkSeq(LAMBDA i : After(q, q.pick[i]), Len(q.pick)),
      ref |-> NSub(q.z[q.ref], m), src |-> MkSeq(LAMBDA i : NSub(q.z[i], m), Len(q.z)), taper |-> tap, mean |-> m,
      weight |-> MkSeq(LAMBDA i : IF NSign(tap[i]) = 0 THEN NZero ELSE NMul(tap[i], NExp(NMul(mag[i], q.zdown))), Len(mag)),
      \* minus 1 / (2 pi G drho), kilometres for milligal and g/cm^3
      factor |-> NNeg(NDivI(NRecip(NMul(NMul(TwoPi, NRat(Big, 1000)), q.rho)), q.nx * q.ny))]
TheJob(q) == CASE q.fun = "line" -> LineJob(q) [] q.fun = "grid" -> GridJob(q)
               [] q.fun = "layer" -> LayerJob(q, NearFold) [] q.fun = "crust" -> CrustJob(q)
\* second run: the known deviant layer, or the recovered gravity of crust (taper only)
Second(q) == q.fun = "layer" \/ (q.fun = "crust" /\ q.back)
SecondJob(q, j) == IF q.fun = "layer" THEN LayerJob(q, LateFold) ELSE [j EXCEPT !.weight = j.taper]
mvars == <<job, roots, wave, acc>>
Nothing == [nx |-> 1, ny |-> 1, src |-> <<>>, ref |-> NZero, outs |-> <<>>]
TInit == k \in 1..Len(Cases) /\ phase = 0 /\ dev = <<>> /\ devacc = <<>> /\ SpStart(Nothing, <<>>)
Prepare == /\ phase = 0 /\ phase' = 1 /\ UNCHANGED <<k, dev, devacc, wave>>
           /\ IF Cases[k].obs.kind # "field" THEN UNCHANGED <<job, roots, acc>>
              ELSE /\ job' = TheJob(Q) /\ roots' = Circle(Period(job'))
                   /\ acc' = [i \in 1..Len(job'.outs) |-> NZero]
Run == phase \in {1, 2} /\ SpNext /\ UNCHANGED <<k, phase, dev, devacc>>
Turn == /\ phase = 1 /\ SpDone /\ Cases[k].obs.kind = "field" /\ Second(Q) /\ phase' = 2 /\ UNCHANGED <<k, dev, roots>>
        /\ devacc' = acc /\ job' = SecondJob(Q, job) /\ wave' = 1 /\ acc' = [i \in 1..Len(acc) |-> NZero]
Bound(j) == RoundBound(j, Q.z)
\* all outputs o, expected values e of the output points job.outs; moved = 0: each in its place,
\* 1: each in the opposite place, 2: each one place later (crust only)
Where(p) == IF p < Len(job.outs) /\ job.outs[p + 1] = p THEN p + 1 ELSE CHOOSE i \in 1..Len(job.outs) : job.outs[i] = p
Same(o, e, t, moved) ==
  \A i \in 1..Len(job.show) :
    NNear(o[job.show[i] + 1], e[CASE moved = 0 -> i [] moved = 1 -> Where(Opposite(Q, job.show[i])) [] OTHER -> Where(After(Q, job.show[i]))], t)
Scaled(a, f) == MkSeq(LAMBDA i : NMul(a[i], f), Len(a))
Outputs(q) == IF q.fun = "line" THEN Len(q.z) ELSE q.nx * q.ny
FieldFails ==
  CASE Q.fun \in {"line", "grid"} ->
         IF Same(O.y, Scaled(acc, job.factor), Bound(job), 0) THEN {} ELSE {"gravity"}
    [] Q.fun = "layer" ->
         IF Same(O.y, Scaled(devacc, job.factor), Bound(job), 0) THEN {}
         ELSE IF Same(O.y, Scaled(acc, job.factor), Bound(job), 0) THEN {"known:" \o KnownLayer} ELSE {"gravity"}
    [] Q.fun = "crust" /\ ~Q.back ->
         LET e == Scaled(acc, job.factor) b == Bound(job) IN
         IF Same(O.y, e, b, 0) THEN {} ELSE IF Same(O.y, e, b, 1) THEN {"known:" \o KnownOrientation} ELSE {"thickness"}
    [] OTHER ->
         LET e == Scaled(devacc, job.factor)
             b == Bound([job EXCEPT !.weight = MkSeq(LAMBDA i : NMul(NMax(NOne, job.weight[i]), NExp(NMul(job.kmag[i], Q.zdown))), Size(job))])
             g == MkSeq(LAMBDA i : NAdd(NDivI(acc[i], Size(job)), job.mean), Len(acc))
             bb == NMul(NMul(NAdd(Largest(job.src), NDivI(Largest(Q.z), 10)), NPow10(-12)), NInt(Size(job)))
             tg == NAdd(NMul(Largest(Q.z), NPow10(-12)), bb)
         IN (IF Same(O.y, e, b, 0) THEN {} ELSE IF Same(O.y, e, b, 2) THEN {"known:" \o KnownOrientation} ELSE {"thickness"})
            \cup (IF Same(O.back, g, tg, 0) THEN {} ELSE IF Same(O.back, g, tg, 2) THEN {"known:" \o KnownOrientation} ELSE {"recovered"})
Fails == IF Q.bad THEN (IF O.kind = "raise" THEN {} ELSE {"bad-input-accepted"})
         ELSE IF O.kind # "field" THEN {"kind-" \o O.kind}
         ELSE IF Len(O.y) # Outputs(Q) \/ (Q.fun = "crust" /\ Q.back /\ Len(O.back) # Outputs(Q)) THEN {"size"} ELSE FieldFails
Judge == /\ phase \in {1, 2} /\ (Cases[k].obs.kind = "field" => SpDone /\ (Second(Q) => phase = 2)) /\ phase' = 3
         /\ PrintT(<<"VERDICT", k, Fails>>) /\ UNCHANGED <<mvars, k, dev, devacc>>
TNext == Prepare \/ Run \/ Turn \/ Judge
=============================================================================
