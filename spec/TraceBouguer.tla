---------------------------- MODULE TraceBouguer ----------------------------
(* Recorded reductions of profiles to the (residual) mantle Bouguer anomaly: *)
(* the interfaces are built from depth, sediment, crust and age, with the    *)
(* isotherms of the cooling half space, and stripped by Bouguer with exact   *)
(* arithmetic.                                                               *)
EXTENDS Bouguer, Parker, Json, IOUtils
TH == INSTANCE Thermal
Cases == JsonDeserialize(IOEnv.TRACE)
VARIABLES k, slack, judged
Q == Cases[k].req
O == Cases[k].obs
BJob(l) == ProfileJob(Q.x, l.z, NZero, l.rho, l.z[1], MkSeq(LAMBDA i : i - 1, Len(l.z)))
BRoots(j) == Circle(j.nx)
\* inverse of the error function for 0 <= y < 1, by Newton's rule from below
ErfInverse(y) == FoldLeft(LAMBDA x, i : NAdd(x, NDiv(NSub(y, NErf(x)), NMul(NTwoOverSqrtPi, NExp(NNeg(NSqr(x)))))), NZero, Idx(9))
Kt(x) == IF Q.time THEN TH!KtOfAge(Q.kappa, x) ELSE TH!KtOfDistance(Q.kappa, x, Q.u)
MantleDensity(t) == NMul(Q.rhom, NSub(NOne, NMul(Q.a, NSub(t, Q.Tm))))
TheLayers(q) ==
  LET n == Len(q.dep)
      along(F(_)) == MkSeq(F, n)
      sed == along(LAMBDA i : NSub(q.dep[i], q.sed[i]))
      moho == along(LAMBDA i : NSub(sed[i], q.crust))
      root == along(LAMBDA i : NMulI(NSqrt(Kt(q.age[i])), 2))
      \* an isotherm separates the mantle as dense as at its own temperature from that at the next
      iso(m) == LET e == ErfInverse(NDiv(q.T[m], q.Tm)) IN along(LAMBDA i : NSub(moho[i], NMul(root[i], e)))
  IN <<[z |-> q.dep, rho |-> NSub(q.rhos, q.rhow)], [z |-> sed, rho |-> NSub(q.rhoc, q.rhos)],
       [z |-> moho, rho |-> NSub(MantleDensity(q.T[1]), q.rhoc)]>>
     \o MkSeq(LAMBDA m : [z |-> iso(m), rho |-> NSub(MantleDensity(q.T[m + 1]), MantleDensity(q.T[m]))], Len(q.T) - 1)
TInit == k \in 1..Len(Cases) /\ judged = FALSE /\ slack = <<>> /\ BStart(<<>>, 0, <<>>)
Prepare == /\ slack = <<>> /\ slack' = <<NZero, NZero>> /\ UNCHANGED <<k, judged, at, busy, job, roots, wave, acc>>
           /\ layers' = TheLayers(Q) /\ shallow' = 3 /\ left' = Q.faa /\ mba' = <<>>
Work == /\ slack # <<>> /\ BNext /\ UNCHANGED <<k, judged>>
        /\ slack' = IF ~busy' /\ busy THEN LET b == RoundBound(job, job.src) IN <<NAdd(slack[1], b), IF at <= shallow THEN NAdd(slack[2], b) ELSE slack[2]>> ELSE slack
Tol(b, s) == NAdd(NMulI(b, 20), NMul(NAdd(Largest(s), Largest(Q.faa)), NPow10(-12)))
Same(o, e, t) == Len(o) = Len(e) /\ \A i \in 1..Len(e) : IsNum(o[i]) /\ NNear(o[i], e[i], t)
Fails == IF O.kind # "profiles" THEN {"kind-" \o O.kind}
         ELSE (IF Same(O.mba, mba, Tol(slack[2], mba)) THEN {} ELSE {"mantle-bouguer"})
              \cup (IF Same(O.rmba, left, Tol(slack[1], left)) THEN {} ELSE {"residual"})
Judge == /\ slack # <<>> /\ BDone /\ ~judged /\ judged' = TRUE /\ UNCHANGED <<bvars, k, slack>>
         /\ PrintT(<<"VERDICT", k, Fails>>)
TNext == Prepare \/ Work \/ Judge
=============================================================================
