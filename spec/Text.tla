------------------------------- MODULE Text --------------------------------
(***************************************************************************)
(* Lines of text as sequences of character codes, and what the file        *)
(* formats need of them: searching, splitting, trimming, and decimal       *)
(* numbers (integers below 2^31, or fixed-point numbers of module Num).    *)
(***************************************************************************)
EXTENDS Num

cSP == 32  cTAB == 9  cCOMMA == 44  cDOT == 46  cMINUS == 45  cPLUS == 43
cCOLON == 58  cSLASH == 47  cHASH == 35  cDOLLAR == 36  cEQ == 61  cQUOTE == 34
cN == 78  cS == 83  cE == 69  cW == 87  cT == 84  cZ == 90  cLBR == 91  cRBR == 93

IsDig(c) == c \in 48..57
IsBlank(c) == c \in {9, 10, 11, 12, 13, 32}

Max2(a, b) == IF a < b THEN b ELSE a
\* s holds t at position i
At(s, t, i) == i + Len(t) - 1 <= Len(s) /\ \A j \in 1..Len(t) : s[i+j-1] = t[j]
\* first position >= from at which s holds t, or 0
FindFrom(s, t, from) ==
  LET last == Len(s) - Len(t) + 1
      p == CHOOSE i \in from..Max2(last + 1, from) : /\ i > last \/ (s[i] = t[1] /\ At(s, t, i))
                                                 /\ \A j \in from..(i - 1) : ~At(s, t, j)
  IN IF p > last THEN 0 ELSE p
Find(s, t) == FindFrom(s, t, 1)
FindLast(s, t) ==
  LET I == {i \in 1..(Len(s)-Len(t)+1) : s[i] = t[1] /\ At(s, t, i)}
  IN IF I = {} THEN 0 ELSE CHOOSE i \in I : \A j \in I : i >= j
Has(s, t) == IF t = <<>> THEN TRUE ELSE Find(s, t) # 0
StartsWith(s, t) == At(s, t, 1)
From(s, i) == SubSeq(s, i, Len(s))
Upto(s, i) == SubSeq(s, 1, i)
Before(s, t) == LET i == Find(s, t) IN IF i = 0 THEN s ELSE Upto(s, i - 1)
After(s, t) == LET i == Find(s, t) IN IF i = 0 THEN <<>> ELSE From(s, i + Len(t))
AfterLast(s, t) == LET i == FindLast(s, t) IN IF i = 0 THEN s ELSE From(s, i + Len(t))
\* first position of a code of the set C at or after from, or Len+1
FirstIn(s, C, from) ==
  IF from > Len(s) THEN Len(s) + 1
  ELSE CHOOSE i \in from..(Len(s) + 1) : /\ i > Len(s) \/ s[i] \in C
                                        /\ \A j \in from..(i - 1) : s[j] \notin C
FirstNotIn(s, C, from) ==
  IF from > Len(s) THEN Len(s) + 1
  ELSE CHOOSE i \in from..(Len(s) + 1) : /\ i > Len(s) \/ s[i] \notin C
                                        /\ \A j \in from..(i - 1) : s[j] \in C
LStrip(s) == LET I == {i \in 1..Len(s) : ~IsBlank(s[i])}
             IN IF I = {} THEN <<>> ELSE From(s, CHOOSE i \in I : \A j \in I : i <= j)
RStrip(s) == LET I == {i \in 1..Len(s) : ~IsBlank(s[i])}
             IN IF I = {} THEN <<>> ELSE Upto(s, CHOOSE i \in I : \A j \in I : i >= j)
Strip(s) == LStrip(RStrip(s))
\* fields between single separators c
Split(s, c) ==
  LET r == FoldLeft(LAMBDA a, x : IF x = c THEN <<Append(a[1], a[2]), <<>> >>
                                  ELSE <<a[1], Append(a[2], x)>>,
                    << <<>>, <<>> >>, s)
  IN Append(r[1], r[2])
\* words between runs of blanks
Words(s) ==
  LET r == FoldLeft(LAMBDA a, x :
                      IF IsBlank(x) THEN (IF a[2] = <<>> THEN a ELSE <<Append(a[1], a[2]), <<>> >>)
                      ELSE <<a[1], Append(a[2], x)>>,
                    << <<>>, <<>> >>, s)
  IN IF r[2] = <<>> THEN r[1] ELSE Append(r[1], r[2])
\* replace every code a by the codes r
Replace(s, a, r) == FoldLeft(LAMBDA t, x : IF x = a THEN t \o r ELSE Append(t, x), <<>>, s)

AllDig(s) == \A i \in 1..Len(s) : IsDig(s[i])
\* digits as an integer (at most 9 digits)
Nat9(s) == FoldLeft(LAMBDA v, c : 10 * v + (c - 48), 0, s)
\* a signed integer text
SInt(s) == LET t == Strip(s) IN
  IF t # <<>> /\ t[1] = cMINUS THEN -Nat9(From(t, 2))
  ELSE IF t # <<>> /\ t[1] = cPLUS THEN Nat9(From(t, 2)) ELSE Nat9(t)
\* the first n digits of a fraction as an integer of n digits
FracTo(s, n) == Nat9([i \in 1..n |-> IF i <= Len(s) THEN s[i] ELSE 48])

\* is s (trimmed) a plain decimal number: sign, digits, dot, digits, exponent
ExpAt(t) == FirstIn(t, {101, 69}, 1)
Unsign(t) == IF t # <<>> /\ t[1] \in {cMINUS, cPLUS} THEN From(t, 2) ELSE t
IsDecimal(s) ==
  LET t == Unsign(Strip(s))
      e == ExpAt(t)
      m == Upto(t, e - 1)
      x == Unsign(From(t, e + 1))
      d == FirstIn(m, {cDOT}, 1)
      ip == Upto(m, d - 1)
      fp == From(m, d + 1)
  IN /\ AllDig(ip) /\ AllDig(fp) /\ Len(ip) + Len(fp) > 0
     /\ (e <= Len(t) => AllDig(x) /\ Len(x) > 0)
\* its value; the integer part may have 15 digits, the fraction any number
Digits15(s) == FoldLeft(LAMBDA v, c : NAdd(NMulI(v, 10), NInt(c - 48)), NZero, s)
LOCAL Ten4 == <<1, 10, 100, 1000>>
LOCAL Int4(s) == FoldLeft(LAMBDA v, c : 10 * v + (c - 48), 0, s)
LOCAL IntPart(ip) == \* groups of four digits from the right
  LET n == Len(ip) IN
  NNorm([i \in 1..NumW |-> IF i <= NumF THEN 0
         ELSE LET hi == n - 4 * (i - NumF - 1) lo == IMax(1, hi - 3)
              IN IF hi < 1 THEN 0 ELSE Int4(SubSeq(ip, lo, hi))])
LOCAL FracPart(fp) ==
  LET n == Len(fp) IN
  NNorm([i \in 1..NumW |-> IF i > NumF THEN 0
         ELSE LET lo == 1 + 4 * (NumF - i) hi == IMin(n, lo + 3)
              IN IF lo > n THEN 0 ELSE Int4(SubSeq(fp, lo, hi)) * Ten4[5 - (hi - lo + 1)]])
Decimal(s) ==
  LET t0 == Strip(s)
      neg == t0 # <<>> /\ t0[1] = cMINUS
      t == Unsign(t0)
      e == ExpAt(t)
      m == Upto(t, e - 1)
      x == IF e <= Len(t) THEN SInt(From(t, e + 1)) ELSE 0
      d == FirstIn(m, {cDOT}, 1)
      v == NAdd(IntPart(Upto(m, d - 1)), FracPart(From(m, d + 1)))
      w == IF x = 0 THEN v ELSE NMul(v, NPow10(x))
  IN IF neg THEN NNeg(w) ELSE w
=============================================================================
