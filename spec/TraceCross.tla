----------------------------- MODULE TraceCross -----------------------------
(* Recorded calls of calc_cross_coupling_coefficients.  The channels hold   *)
(* whole numbers; rows of the result are recomputed as: twice the Taylor    *)
(* derivative, then a 200-tap Blackman low-pass of cut-off 1/200, sample by *)
(* sample inside the row's own section.                                     *)
EXTENDS Sections, Elem, Json, IOUtils
Cases == JsonDeserialize(IOEnv.TRACE)
VARIABLES k, i, bad, taps
Q == Cases[k].req
O == Cases[k].obs
\* low-pass: windowed sinc, unit sum (tap m+1 for m = 0..199; symmetric)
NTaps == 200
RawTap(m) == \* m in 100..199
  LET c == NDivI(NInt(2*m - 199), 2)                     \* distance from the middle
      s == NDiv(SinCosDeg(NDivI(NMulI(c, 9), 10))[1], c)
      w1 == SinCosDeg(NDivI(NInt(360*m), 199))[2]
      w2 == SinCosDeg(NDivI(NInt(720*m), 199))[2]
      w == NAdd(NSub(NRat(42, 100), NDivI(w1, 2)), NMul(NRat(8, 100), w2))
  IN NMul(s, w)
HalfTaps == LET raw == MkSeq(LAMBDA j : RawTap(99 + j), 100)
                inv == NRecip(NMulI(NSum(raw), 2))
            IN MkSeq(LAMBDA j : NMul(raw[j], inv), 100)
Tap(m) == taps[IF m >= 100 THEN m - 99 ELSE 100 - m]        \* m in 0..199
\* Taylor derivative of a sequence of whole numbers / of numbers, times 2520
TayC == <<2100, -600, 150, -25, 2>>
D1(v, p) == FoldLeft(LAMBDA t, j : t + TayC[j] * (v[p + j] - v[p - j]), 0, Idx(5))
\* the raw samples that row `row` of the section starting at s depends on
Value(v, s, row) ==
  LET base == s + 10 + 200 + row                          \* newest position of the filter window
      lo == base - 199 - 5
      d1 == MkSeq(LAMBDA j : NInt(D1(v, lo + j - 1)), 210)
      d2(j) == FoldLeft(LAMBDA t, q : NAdd(t, NMulI(NSub(d1[j + q], d1[j - q]), TayC[q])), NZero, Idx(5))
      f == FoldLeft(LAMBDA t, m : NAdd(t, NMul(Tap(m), d2(205 - m))), NZero, [j \in 1..200 |-> j - 1])
  IN NDivI(NDivI(f, 2520), 2520)
Names == <<"ve", "vcc", "al", "ax", "lev", "g">>
Largest(v) == FoldLeft(LAMBDA t, x : IMax(t, IAbs(x)), 1, v)
RowFails(j) ==
  LET l == Locate(kept, Q.rows[j]) IN
  UNION {LET v == Q[Names[c]]
             e == Value(v, l[1], l[2])
             x == IF c = 6 THEN NNeg(e) ELSE e
         IN IF NNear(O.vals[j][c], x, NMulI(NPow10(-13), Largest(v))) THEN {} ELSE {"value-" \o Names[c]} : c \in 1..6}
\* long steps: more than five sample intervals
Cuts(q) == IF q.times = <<>> THEN <<>>
        ELSE LET lim == NMulI(q.rate, 5) IN
             FoldLeft(LAMBDA s, p : IF q.times[p+1] - q.times[p] > 0 /\ NLt(lim, NMul(NInt(q.times[p+1] - q.times[p]), q.unit))
                                    THEN Append(s, p) ELSE s, <<>>, Idx(Len(q.times) - 1))
TInit == /\ k \in 1..Len(Cases) /\ i = 0 /\ bad = {} /\ taps = <<>>
         /\ SStart(Len(Cases[k].req.g), Cuts(Cases[k].req))
TStep == SNext /\ UNCHANGED <<k, i, bad, taps>>
TDesign == SDone /\ taps = <<>> /\ taps' = HalfTaps /\ UNCHANGED <<svars, k, i, bad>>
\* known couplings: minus gravity was built as the sum of coupling times monitor
CouplingFails == UNION {IF Q.known = <<>> \/ (Names[c] = "lev" /\ Q.nolevel) THEN {}
                        ELSE IF NNear(O.params[c + 1], NInt(Q.known[c]), NPow10(-6)) THEN {} ELSE {"coupling-" \o Names[c]} : c \in 1..5}
\* least squares: the residual is orthogonal to the constant and to every monitor
X(r, c) == IF c = 0 THEN NOne ELSE O.all[r][c]
OlsFails ==
  IF O.all = <<>> THEN {}
  ELSE LET m == Len(O.all)
           res == MkSeq(LAMBDA r : FoldLeft(LAMBDA t, c : NSub(t, NMul(O.params[c], X(r, c - 1))), O.all[r][6], Idx(6)), m)
           scale == NAdd(NPow10(-12), FoldLeft(LAMBDA t, r : NAdd(t, NAbs(O.all[r][6])), NZero, Idx(m)))
           big(c) == FoldLeft(LAMBDA t, r : NMax(t, NAbs(X(r, c))), NZero, Idx(m))
           dot(c) == FoldLeft(LAMBDA t, r : NAdd(t, NMul(res[r], X(r, c))), NZero, Idx(m))
       IN UNION {IF NLe(NAbs(dot(c)), NMul(NPow10(-9), NMul(scale, big(c)))) THEN {} ELSE {"least-squares"} : c \in 0..5}
ShapeFails == IF O.kind # "fit" THEN {"kind-" \o O.kind} ELSE IF O.len # rows THEN {"rows"} ELSE {}
N == IF ShapeFails = {} THEN Len(Q.rows) ELSE 0
Row == SDone /\ taps # <<>> /\ i < N /\ i' = i + 1 /\ bad' = bad \cup RowFails(i') /\ UNCHANGED <<svars, k, taps>>
Judge == /\ SDone /\ taps # <<>> /\ i = N /\ i' = N + 1 /\ UNCHANGED <<svars, k, bad, taps>>
         /\ PrintT(<<"VERDICT", k, bad \cup ShapeFails \cup (IF ShapeFails = {} THEN CouplingFails \cup OlsFails ELSE {})>>)
TNext == TDesign \/ TStep \/ Row \/ Judge
=============================================================================
