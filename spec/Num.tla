-------------------------------- MODULE Num --------------------------------
(***************************************************************************)
(* Fixed-point real arithmetic in plain TLA+ (TLC's integers are 32 bit).  *)
(*                                                                         *)
(* A number is a tuple of NumW limbs, least significant first, in balanced *)
(* base 10^4: every limb lies in -5000..4999 and limb i weighs             *)
(* 10^(4*(i-1-NumF)).  So the resolution is 10^-24 and the range is about  *)
(* 5*10^15.  The balanced form makes the sign of a number the sign of its  *)
(* top non-zero limb, and needs no separate sign handling.                 *)
(*                                                                         *)
(* A trace writes a float as such a tuple; NaN is <<>>, an infinity or a   *)
(* value out of range is a one-element tuple.                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, TLC

NumF == 6                     \* fraction limbs
NumW == 10                    \* limbs
NumB == 10000
NumH == 5000

NZero == <<0,0,0,0,0,0,0,0,0,0>>
IMax(a, b) == IF a > b THEN a ELSE b
IMin(a, b) == IF a < b THEN a ELSE b
IAbs(a) == IF a < 0 THEN -a ELSE a
Idx(n) == [i \in 1..n |-> i]
Downto(n) == [i \in 1..n |-> n + 1 - i]

IsNum(x) == Len(x) = NumW
IsNaN(x) == Len(x) = 0

\* carry propagation; the carry out of the top limb must be zero
NNorm(v) ==
  LET r == FoldLeft(LAMBDA s, x :
                      LET y == x + s[1]
                          q == (y + NumH) \div NumB
                      IN <<q, Append(s[2], y - q * NumB)>>,
                    <<0, <<>> >>, v)
  IN IF r[1] = 0 THEN r[2] ELSE Assert(FALSE, <<"Num overflow", v>>)

NInt(k) == \* |k| < 2^31
  LET l1 == ((k + NumH) % NumB) - NumH
      k1 == (k - l1) \div NumB
      l2 == ((k1 + NumH) % NumB) - NumH
      l3 == (k1 - l2) \div NumB
  IN <<0,0,0,0,0,0,l1,l2,l3,0>>
NOne == NInt(1)

NAdd(a, b) == NNorm([i \in 1..NumW |-> a[i] + b[i]])
NSub(a, b) == NNorm([i \in 1..NumW |-> a[i] - b[i]])
NNeg(a) == NNorm([i \in 1..NumW |-> -a[i]])
NAdd3(a, b, c) == NNorm([i \in 1..NumW |-> a[i] + b[i] + c[i]])
NMulI(a, k) == NNorm([i \in 1..NumW |-> a[i] * k])       \* |k| <= 200000

NSign(a) == FoldLeft(LAMBDA s, x : IF x > 0 THEN 1 ELSE IF x < 0 THEN -1 ELSE s, 0, a)
NAbs(a) == IF NSign(a) < 0 THEN NNeg(a) ELSE a
NLt(a, b) == NSign(NSub(a, b)) < 0
NLe(a, b) == NSign(NSub(a, b)) <= 0
NMax(a, b) == IF NLt(a, b) THEN b ELSE a
NMin(a, b) == IF NLt(b, a) THEN b ELSE a

\* product: limb k of the full product is the sum of a[i]*b[k-i]; limbs below
\* the resolution are dropped, except for one guard limb
NTab == [k \in (NumF+1)..(2*NumW) |->
           LET lo == IMax(1, k - NumW) hi == IMin(NumW, k - 1)
           IN [j \in 1..(hi - lo + 1) |-> lo + j - 1]]
NKs == [j \in 1..(2*NumW-NumF) |-> NumF + j]
NMul(a, b) ==
  LET r == FoldLeft(LAMBDA s, k :
             LET x == s[1] + FoldLeft(LAMBDA t, i : t + a[i] * b[k - i], 0, NTab[k])
                 q == (x + NumH) \div NumB
             IN <<q, IF k = NumF+1 THEN <<>> ELSE Append(s[2], x - q * NumB)>>,
             <<0, <<>> >>, NKs)
      m == r[2]
  IN IF r[1] = 0 /\ m[11] = 0 /\ m[12] = 0 /\ m[13] = 0 THEN SubSeq(m, 1, NumW)
     ELSE Assert(FALSE, <<"Num overflow in product", a, b>>)
NSqr(a) == NMul(a, a)

\* division by a small positive integer (<= 200000), rounded down
NDivI(a, d) ==
  LET r == FoldLeft(LAMBDA s, i :
             LET c == s[1] * NumB + a[i]
                 q == c \div d
             IN <<c - q * d, <<q>> \o s[2]>>,
             <<0, <<>> >>, Downto(NumW))
  IN NNorm(r[2])
NDivS(a, d) == IF d < 0 THEN NNeg(NDivI(a, -d)) ELSE NDivI(a, d)

\* multiply by NumB^n
NShift(a, n) == [i \in 1..NumW |-> IF i - n \in 1..NumW THEN a[i - n] ELSE 0]
NTop(a) == FoldLeft(LAMBDA t, i : IF a[i] # 0 THEN i ELSE t, 0, Idx(NumW))

\* 10^n for -24 <= n <= 15
NPow10(n) == LET q == n \div 4 r == n - 4 * q
             IN NShift(NInt(<<1, 10, 100, 1000>>[r + 1]), q)

\* reciprocal of a number normalised so that its top limb is the units limb
NRecipN(b) ==
  LET m == b[NumF+1] * NumB + b[NumF]
      q == 2000000000 \div IAbs(m)
      y0 == NShift(NDivI(NInt(IF m < 0 THEN -q ELSE q), 20), -1)
      two == NInt(2)
  IN FoldLeft(LAMBDA y, i : NMul(y, NSub(two, NMul(b, y))), y0, Idx(5))
NDiv(a, b) ==
  LET t == NTop(b) s == NumF + 1 - t
  IN IF t = 0 THEN Assert(FALSE, "Num division by zero")
     ELSE NShift(NMul(a, NRecipN(NShift(b, s))), s)
NRecip(b) == NDiv(NOne, b)
NRat(p, q) == NDivS(NInt(p), q)                          \* q <= 200000

\* square root of a number >= 0
ISqrt(m) == FoldLeft(LAMBDA r, i : LET t == (r + m \div r) \div 2 IN IF t < 1 THEN 1 ELSE t,
                     IMin(m, 7100), Idx(20))
NSqrt(a) ==
  IF NSign(a) <= 0 THEN NZero
  ELSE LET t == NTop(a)
           u == IF (t - NumF - 1) % 2 = 0 THEN t ELSE t + 1  \* even shift
           s == NumF + 1 - u
           x == NShift(a, s)                                  \* in about (5e-5, 5000)
           m == x[NumF+1] * NumB + x[NumF]
           m2 == x[NumF] * NumB + x[NumF-1]
           y0 == IF x[NumF+1] = 0 THEN NRat(10000, ISqrt(m2)) \* 10^4*sqrt(x)
                 ELSE NRat(100, ISqrt(m))                      \* 100*sqrt(x)
           three == NInt(3)
           y == FoldLeft(LAMBDA z, i : NDivI(NMul(z, NSub(three, NMul(x, NSqr(z)))), 2),
                         y0, Idx(5))
       IN NShift(NMul(x, y), -(s \div 2))

\* nearest integer (|a| < 2*10^9)
NRound(a) == a[NumF+1] + a[NumF+2] * NumB + a[NumF+3] * NumB * NumB
NFloor(a) == LET r == NRound(a) IN IF NSign(NSub(a, NInt(r))) < 0 THEN r - 1 ELSE r

NSum(s) == FoldLeft(LAMBDA t, x : NAdd(t, x), NZero, s)
NPow(a, n) == FoldLeft(LAMBDA t, i : NMul(t, a), NOne, Idx(n))

\* |x - y| <= tol, with x a logged value that may be NaN or out of range
NNear(x, y, tol) == IsNum(x) /\ NLe(NAbs(NSub(x, y)), tol)
\* |x - y| <= 10^e * max(|y|, scale)
NClose(x, y, e, scale) ==
  IsNum(x) /\ NLe(NAbs(NSub(x, y)), NMul(NPow10(e), NMax(NAbs(y), scale)))
=============================================================================
