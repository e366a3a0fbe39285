---------------------------- MODULE TraceThermal ----------------------------
(* Recorded calls of the thermal models, judged age by age.                 *)
EXTENDS Thermal, Json, IOUtils
Cases == JsonDeserialize(IOEnv.TRACE)
VARIABLES k, i, sines, depths, bad        \* i: next age; 0 set up
tvars == <<k, i, sines, depths, bad>>
Q == Cases[k].req
O == Cases[k].obs
Plate == Q.fun \in {"plate", "zplate"}
Grid == Q.fun \in {"half", "plate"}
NX == Len(Q.x)
\* nodes of the search grid: from minz in steps of zsp, below maxz
GridLen == LET n == NDiv(NSub(Q.maxz, Q.minz), Q.zsp) r == NRound(n) IN IF NLt(NInt(r), n) THEN r + 1 ELSE r
TheDepths == IF Q.fun = "zplate" THEN MkSeq(LAMBDA j : NAdd(Q.minz, NMulI(Q.zsp, j - 1)), GridLen) ELSE Q.z
ShapeFails ==
  IF O.kind # "ok" THEN {"kind-" \o O.kind}
  ELSE CASE Grid -> IF O.shape = <<Len(Q.z), NX>> /\ Len(O.T) = Len(Q.z) * NX /\ Len(O.W) = NX THEN {} ELSE {"shape"}
         [] Q.fun = "zhalf" -> IF Len(O.T) = NX /\ Len(O.W) = NX THEN {} ELSE {"shape"}
         [] OTHER -> IF O.shape = <<Len(Q.T), NX>> /\ Len(O.T) = Len(Q.T) * NX THEN {} ELSE {"shape"}
TInit == k \in 1..Len(Cases) /\ i = 0 /\ sines = <<>> /\ depths = <<>> /\ bad = {}
Prepare == /\ i = 0 /\ i' = 1 /\ UNCHANGED k /\ bad' = ShapeFails
           /\ depths' = TheDepths
           /\ sines' = IF Plate /\ bad' = {} THEN MkSeq(LAMBDA j : PlateSines(depths'[j], Q.L), Len(depths')) ELSE <<>>
Kt == IF Q.time THEN KtOfAge(Q.kappa, Q.x[i]) ELSE KtOfDistance(Q.kappa, Q.x[i], Q.u)
Tol == NMul(NAbs(Q.Tm), NPow10(-12))
Near(a, e, t) == IsNum(a) /\ NNear(a, e, t)
SinkFails(w, sink, scale) ==
  LET s(x) == Subsidence(Q.rhom, Q.rhow, Q.a, Q.Tm, x) IN
  IF Near(w, s(sink), NAdd(NMul(NAbs(s(scale)), NPow10(-12)), NPow10(-18))) THEN {} ELSE {"subsidence"}
HalfColumn(kt) ==
  (IF \A j \in 1..Len(depths) : HalfDefined(depths[j], kt) =>
        Near(O.T[(j - 1) * NX + i], NMul(Q.Tm, HalfFraction(depths[j], kt)), Tol) THEN {} ELSE {"temperature"})
  \cup SinkFails(O.W[i], HalfSink(kt), HalfSink(kt))
Isotherm(kt) ==
  (IF ~IsNum(O.T[i]) THEN {"isotherm"}
   ELSE IF NSign(kt) = 0 THEN (IF NSign(O.T[i]) = 0 THEN {} ELSE {"isotherm"})
   ELSE IF NNear(NMul(Q.Tm, HalfFraction(O.T[i], kt)), Q.T[1], Tol) THEN {} ELSE {"isotherm"})
  \cup SinkFails(O.W[i], HalfSink(kt), HalfSink(kt))
PlateColumn(kt) ==
  LET d == PlateDecays(kt, Q.L)
      e == MkSeq(LAMBDA j : NMul(Q.Tm, PlateFraction(depths[j], Q.L, sines[j], d)), Len(depths))
      o(j) == O.T[(j - 1) * NX + i]
  IN (IF \A j \in 1..Len(depths) : Near(o(j), e[j], Tol) THEN {} ELSE {"temperature"})
     \cup (IF \A j \in 1..Len(depths) : NLt(Q.L, depths[j]) => o(j) = Q.Tm THEN {} ELSE {"mantle"})
     \cup SinkFails(O.W[i], PlateSink(Q.L, d), Q.L)
PlateIsotherms(kt) ==
  LET d == PlateDecays(kt, Q.L)
      e == MkSeq(LAMBDA j : NMul(Q.Tm, PlateFraction(depths[j], Q.L, sines[j], d)), Len(depths))
      zt == NMul(NAdd(NAbs(Q.zsp), NAbs(Q.maxz)), NPow10(-13))
      miss(j, m) == NAbs(NSub(e[j], Q.T[m]))
      \* the node that is reported, 0 if it is none
      node(m) == LET o == O.T[(m - 1) * NX + i]
                     r == IF ~IsNum(o) THEN 0 ELSE NRound(NDiv(NSub(o, Q.minz), Q.zsp)) + 1
                 IN IF r \in 1..Len(depths) /\ NNear(o, depths[r], zt) THEN r ELSE 0
      below(j) == NLt(Q.L, depths[j])
      \* the misfit is the smallest; of the nodes below the plate, which are all at Tm, the first
      good(m) == LET r == node(m) IN
        /\ r # 0
        /\ \A j \in 1..Len(depths) : NLe(miss(r, m), NAdd(miss(j, m), NMulI(Tol, 2)))
        /\ ~(r > 1 /\ below(r) /\ below(r - 1))
  IN IF \A m \in 1..Len(Q.T) : good(m) THEN {} ELSE {"isotherm"}
Step == /\ i > 0 /\ i <= NX /\ ShapeFails = {} /\ i' = i + 1 /\ UNCHANGED <<k, sines, depths>>
        /\ bad' = bad \cup (LET kt == Kt IN CASE Q.fun = "half" -> HalfColumn(kt) [] Q.fun = "zhalf" -> Isotherm(kt)
                              [] Q.fun = "plate" -> PlateColumn(kt) [] OTHER -> PlateIsotherms(kt))
Judge == /\ i > 0 /\ (i = NX + 1 \/ (i = 1 /\ bad # {})) /\ i' = -1 /\ UNCHANGED <<k, sines, depths, bad>>
         /\ PrintT(<<"VERDICT", k, bad>>)
TNext == Prepare \/ Step \/ Judge
=============================================================================
