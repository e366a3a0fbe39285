------------------------------ MODULE NavText ------------------------------
(***************************************************************************)
(* What the lines of the vessels' navigation files say.                    *)
(***************************************************************************)
EXTENDS Text, Calendar, FiniteSets

GPGGA == <<71,80,71,71,65>>
INGGA == <<73,78,71,71,65>>
Vessels == {"Atlantis", "Thompson", "NBP", "Ride", "Revelle", "Langseth", "Sikuliaq"}
ListedTalker(ship) == IF ship \in {"Thompson", "Ride", "Langseth"} THEN INGGA ELSE GPGGA
\* the talker of a request: the caller's, else the vessel's, else none
Talker(r) == IF r.own THEN r.talker
             ELSE IF r.ship \in Vessels THEN ListedTalker(r.ship) ELSE <<>>
TextHasParser(r) ==
  /\ r.own \/ r.ship \in Vessels
  /\ r.fn \/ (r.ship \in Vessels /\ (r.ship = "Sikuliaq" => Talker(r) = GPGGA)
                                 /\ (r.ship = "Ride" => Talker(r) \in {GPGGA, INGGA}))

TextIsFix(r, ln) == Has(ln, Talker(r))

\* match of a pattern in which 0 stands for any digit
PatAt(s, p, i) == i + Len(p) - 1 <= Len(s) /\
   \A j \in 1..Len(p) : IF p[j] = 0 THEN IsDig(s[i+j-1]) ELSE s[i+j-1] = p[j]
FindPat(s, p) == LET I == {i \in 1..(Len(s)-Len(p)+1) : PatAt(s, p, i)}
                 IN IF I = {} THEN 0 ELSE CHOOSE i \in I : \A j \in I : i <= j
Num2(s, i) == Nat9(SubSeq(s, i, i+1))
Num4(s, i) == Nat9(SubSeq(s, i, i+3))

YMDdash == <<0,0,0,0,45,0,0,45,0,0>>                  \* yyyy-mm-dd
\* Revelle: the date stands at the start of an earlier line
TextIsDated(r, ln) == ~r.fn /\ r.ship = "Revelle" /\ PatAt(ln, YMDdash, 1)
TextDateOf(r, ln) == DayNumber(Num4(ln, 1), Num2(ln, 6), Num2(ln, 9))

\* comma-separated fields after the talker; an empty first one is spacing
Fields(ln, tk) == LET f == Split(LStrip(AfterLast(ln, tk)), cCOMMA)
                  IN IF f[1] = <<>> THEN Tail(f) ELSE f
\* hhmmss(.fff) -> <<second of day, microsecond>>
ClockOf(s) == LET x == From(s, 5) d == FirstIn(x, {cDOT}, 1)
              IN <<Clock(Num2(s, 1), Num2(s, 3), Nat9(Strip(Upto(x, d - 1)))),
                   FracTo(Strip(From(x, d + 1)), 6)>>
\* posix seconds with fraction, digit by digit
PosixOf(s) ==
  LET d == FirstIn(s, {cDOT}, 1)
      w == FoldLeft(LAMBDA a, c : LET x == 10 * a[2] + (c - 48)
                                  IN <<10 * a[1] + x \div 86400, x % 86400>>,
                    <<0, 0>>, Upto(s, d - 1))
  IN <<w[1], w[2], FracTo(From(s, d + 1), 6)>>

NAVpat == <<78,65,86,32,0,0,0,0,47,0,0,47,0,0>>       \* NAV yyyy/mm/dd
TIMpat == <<0,0,0,0,45,0,0,45,0,0,84,0,0,58,0,0,58,0,0,46,0>> \* yyyy-mm-ddThh:mm:ss.f
MDYpat == <<0,0,47,0,0,47,0,0,0,0>>                   \* mm/dd/yyyy
SEAPATH == <<115,101,97,112,97,116,104>>

\* two digits, plus sign, two or three digits, colon: year and day of the year
NbpDay(pre) ==
  LET p2 == FindPat(pre, <<0,0,43,0,0,58>>) p3 == FindPat(pre, <<0,0,43,0,0,0,58>>)
      p == IF p2 = 0 THEN p3 ELSE IF p3 = 0 THEN p2 ELSE IMin(p2, p3)
  IN DayNumberJ(2000 + Num2(pre, p), Nat9(SubSeq(pre, p+3, FirstIn(pre, {cCOLON}, p) - 1)))

FixTime(r, ln, date) ==
  LET tk == Talker(r)
      pre == Before(ln, tk)
      clock == ClockOf(Fields(ln, tk)[1])
  IN CASE r.ship = "Atlantis" ->
            LET p == FindPat(pre, NAVpat)
            IN <<DayNumber(Num4(pre, p+4), Num2(pre, p+9), Num2(pre, p+12))>> \o clock
       [] r.ship = "NBP" -> <<NbpDay(pre)>> \o clock
       [] r.ship = "Thompson" ->                      \* whole seconds
            LET p == FindPat(pre, MDYpat)
            IN <<DayNumber(Num4(pre, p+6), Num2(pre, p), Num2(pre, p+3)), clock[1], 0>>
       [] r.ship = "Revelle" -> <<CHOOSE d \in date : TRUE>> \o clock
       [] r.ship = "Ride" /\ tk = INGGA ->            \* posix time before " $INGGA"
            LET e == Find(ln, <<cSP, cDOLLAR>> \o tk)
                b == CHOOSE i \in 1..e : (\A j \in i..(e-1) : IsDig(ln[j]) \/ ln[j] = cDOT)
                        /\ (i = 1 \/ ~(IsDig(ln[i-1]) \/ ln[i-1] = cDOT))
            IN PosixOf(SubSeq(ln, b, e - 1))
       [] r.ship \in {"Ride", "Sikuliaq"} ->          \* ISO stamp
            LET p == FindPat(ln, TIMpat)
                z == FirstIn(ln, {cZ}, p)
            IN <<DayNumber(Num4(ln, p), Num2(ln, p+5), Num2(ln, p+8)),
                 Clock(Num2(ln, p+11), Num2(ln, p+14), Num2(ln, p+17)),
                 FracTo(SubSeq(ln, p+20, z-1), 6)>>
       [] r.ship = "Langseth" ->                      \* tab, yyyy:ddd:hh:mm:ss.ffff
            LET f == Split(After(pre, SEAPATH), cTAB)[2]
                g == Split(f, cCOLON)
                d == FirstIn(g[5], {cDOT}, 1)
            IN <<DayNumberJ(Nat9(g[1]), Nat9(g[2])),
                 Clock(Nat9(g[3]), Nat9(g[4]), Nat9(Upto(g[5], d-1))),
                 FracTo(From(g[5], d+1), 6)>>

\* degrees and minutes, k digits of degrees
DegMin(s, k) == NAdd(NInt(Nat9(Upto(s, k))), NDivI(Decimal(From(s, k + 1)), 60))
FixPos(f) ==
  IF f[2] = <<>> \/ f[4] = <<>>
  THEN [lon |-> NZero, lat |-> NZero, miss |-> TRUE]
  ELSE LET la == DegMin(f[2], 2) lo == DegMin(f[4], 3) IN
       [lat |-> IF f[3] = <<cS>> THEN NNeg(la) ELSE la,
        lon |-> IF f[5] = <<cW>> THEN NNeg(lo) ELSE lo, miss |-> FALSE]

\* a user-supplied function (the harness supplies one for lines "posix lon lat talker ...")
UserFix(ln) == LET w == Words(ln) IN
  [t |-> PosixOf(w[1]), lon |-> Decimal(w[2]), lat |-> Decimal(w[3]), miss |-> FALSE]

TextFixOf(r, ln, date) ==
  IF r.fn THEN UserFix(ln)
  ELSE LET p == FixPos(Fields(ln, Talker(r)))
       IN [t |-> FixTime(r, ln, date), lon |-> p.lon, lat |-> p.lat, miss |-> p.miss]
=============================================================================
