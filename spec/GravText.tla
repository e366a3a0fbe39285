------------------------------ MODULE GravText -----------------------------
(***************************************************************************)
(* The layouts of the gravity files.  A value of a row is a record with a  *)
(* kind: "n" number, "i" exact integer, "s" text, "t" UTC time (aware),    *)
(* "u" UTC time (aware or not), "m" missing, "a" column absent.            *)
(***************************************************************************)
EXTENDS Text, Calendar, FiniteSets

V(k, n, s, t) == [k |-> k, n |-> n, s |-> s, t |-> t]
VN(n) == V("n", n, <<>>, <<>>)
VS(s) == V("s", NZero, s, <<>>)
VT(t) == V("t", NZero, <<>>, t)
VU(t) == V("u", NZero, <<>>, t)
Missing == V("m", NZero, <<>>, <<>>)
Absent == V("a", NZero, <<>>, <<>>)
NumField(s) == IF IsDecimal(s) THEN VN(Decimal(s)) ELSE Missing
\* text fields may also be read as numbers; the observation decides (see TraceGrav)

D2(s, i) == Nat9(SubSeq(s, i, i+1))
D4(s, i) == Nat9(SubSeq(s, i, i+3))
\* hh:mm:ss(.f) and dates
HMS(s) == LET g == Split(s, cCOLON) d == FirstIn(g[3], {cDOT, cZ}, 1)
              z == FirstIn(g[3], {cZ}, 1)
          IN <<Clock(Nat9(g[1]), Nat9(g[2]), Nat9(Upto(g[3], d-1))),
               FracTo(SubSeq(g[3], d+1, z-1), 6)>>
YMD(s) == DayNumber(D4(s, 1), D2(s, 6), D2(s, 9))      \* yyyy?mm?dd
MDY(s) == DayNumber(D4(s, 7), D2(s, 1), D2(s, 4))      \* mm?dd?yyyy
ISO(s) == <<YMD(s)>> \o HMS(From(s, 12))               \* yyyy-mm-ddThh:mm:ss.fZ
DOY(s) == LET g == Split(s, cCOLON) IN                 \* yyyy:ddd:hh:mm:ss.f
          <<DayNumberJ(Nat9(g[1]), Nat9(g[2]))>>
          \o HMS(FoldLeft(LAMBDA a, i : a \o <<cCOLON>> \o g[i], g[3], <<4, 5>>))
Count(s) == NInt(SInt(LET i == FindLast(s, <<cCOLON>>) IN From(s, i + 1)))

Scales == [Atlantis |-> <<4, 994070552>>, Thompson |-> <<5, 3353363>>,
           Revelle |-> <<4, 999807550>>, Langseth |-> <<5, 0>>]
ScaleKnown(r) == r.scale # <<>> \/ r.ship \in DOMAIN Scales
Scale(r) == IF r.scale # <<>> THEN r.scale
            ELSE LET s == Scales[r.ship] IN NAdd(NInt(s[1]), NMul(NInt(s[2]), NPow10(-9)))

Laptops == {"Atlantis", "Revelle", "NBP", "Ride", "DGStest", "Thompson", "Sikuliaq", "Langseth"}
TextSupported(r) ==
  CASE r.reader = "rgs" -> r.ship \in {"Atlantis", "NBP"}
    [] r.reader = "bgm" -> ScaleKnown(r) /\ (r.fn \/ r.ship \in DOMAIN Scales)
    [] r.reader = "laptop" -> r.fn \/ r.ship \in Laptops
    [] r.reader = "raw" -> TRUE
TextHeaderLines(r) == IF r.reader = "laptop" /\ r.ship = "Sikuliaq" /\ ~r.fn THEN 19 ELSE 0

DGSDATA == <<100,103,115,100,97,116,97>>
\* Langseth laptop: drop "dgsdata stamp " and return the rest, or <<>> if the prefix is broken
LangsethTail(ln) ==
  LET s == LStrip(ln) IN
  IF ~StartsWith(s, DGSDATA) THEN s
  ELSE LET b1 == FirstIn(s, {9, 32}, 1)
           i2 == FirstNotIn(s, {9, 32}, b1)
           b2 == FirstIn(s, {9, 32}, i2)
           i3 == FirstNotIn(s, {9, 32}, b2)
       IN From(s, i3)
TextLineKind(r, ln) ==
  IF r.reader = "laptop" /\ r.ship = "Langseth" /\ ~r.fn
  THEN IF Len(Split(LangsethTail(ln), cCOMMA)) = 26 THEN "row" ELSE "reject"
  ELSE IF Strip(ln) = <<>> THEN "blank"
  ELSE IF r.reader = "raw" /\ r.ship = "Sikuliaq" /\ StartsWith(ln, <<cHASH>>) THEN "reject"
  ELSE "row"

\* the columns of the table, in the order in which RowOf lists their values
GenCols == <<"rgrav", "long_a", "crss_a", "status", "ve", "vcc", "al", "ax", "lat", "lon",
             "year", "month", "day", "hour", "minute", "second", "date_time">>
GenIdx == <<1, 2, 3, 6, 10, 11, 12, 13, 14, 15, 19, 20, 21, 22, 23, 24>>
RawCols == <<"string", "Gravity", "Long", "Cross", "Beam", "Temp", "Pressure", "ElecTemp", "vcc",
             "ve", "al", "ax", "status", "checksum", "latitude", "longitude", "speed", "course",
             "timestamp", "date_time">>
ThRawCols == <<"date", "time", "string", "Gravity", "Long", "Cross", "Beam", "Temp", "Pressure",
               "ElecTemp", "vcc", "ve", "al", "ax", "status", "checksum", "latitude", "longitude",
               "speed", "course", "date_time">>
Cols(r) ==
  CASE r.reader = "rgs" -> <<"grav", "lat", "lon", "date_time">>
    [] r.reader = "bgm" /\ r.fn -> <<"counts", "rgrav">>
    [] r.reader = "bgm" -> <<"counts", "rgrav", "date_time">>
    [] r.reader = "laptop" /\ r.fn -> <<"rgrav", "mark">>
    [] r.reader = "laptop" /\ r.ship = "Thompson" ->
         <<"rgrav", "ve", "vcc", "al", "ax", "lat", "lon", "date_time">>
    [] r.reader = "laptop" -> GenCols
    [] r.reader = "raw" /\ r.ship = "Thompson" -> ThRawCols
    [] r.reader = "raw" /\ r.ship = "Sikuliaq" ->
         <<"rgrav", "long_a", "crss_a", "vcc", "ve", "al", "ax", "lat", "lon", "date_time">>
    [] r.reader = "raw" -> RawCols

\* time from the six numeric fields of a laptop line
SixTime(f) ==
  LET sec == NumField(f[25]).n
      w == NFloor(sec)
  IN <<DayNumber(SInt(f[20]), SInt(f[21]), SInt(f[22])),
       Clock(SInt(f[23]), SInt(f[24]), w),
       NRound(NMul(NSub(sec, NInt(w)), NInt(1000000)))>>
GenRow(f) == [i \in 1..17 |-> IF i = 17 THEN VT(SixTime(f)) ELSE NumField(f[GenIdx[i] + 1])]

Micro == NPow10(-5)
Monitor(r, s) == LET v == NumField(s) IN
  IF v.k = "n" /\ r.ccp THEN VN(NMul(v.n, Micro)) ELSE v

\* general raw records: is the meter's clock synchronised (seen in the first record)
Synced(f1) == LET t == LStrip(f1[19]) IN ~(t # <<>> /\ t[1] = 49)
Logger(f1) == f1[1] # <<>> /\ f1[1][1] # cDOLLAR
Stamp14(s) == LET x == Strip(s) IN
  <<DayNumber(D4(x, 1), D2(x, 5), D2(x, 7)), Clock(D2(x, 9), D2(x, 11), D2(x, 13)), 0>>
RawTime(f1, f) ==
  IF Synced(f1) THEN VT(Stamp14(f[19]))
  ELSE IF Logger(f1) THEN VU(ISO(Before(f[1], <<cSP>>)))
  ELSE Absent

\* fields of a Sikuliaq raw record: logname TAB stamp TAB $AT1M_...,...
SikRow(r, ln) ==
  LET p == Split(ln, cTAB) f == Split(p[3], cCOMMA)
  IN [i \in 1..10 |->
       CASE i <= 3 -> NumField(f[i + 1])
         [] i \in 4..7 -> Monitor(r, f[i + 5])
         [] i \in 8..9 -> NumField(f[i + 7])
         [] OTHER -> VT(ISO(p[2]))]

TextRowOf(r, l1, ln) ==
  CASE r.reader = "rgs" ->
         LET f == Split(ln, cSP) IN
         <<NumField(f[4]), NumField(f[12]), NumField(f[13]), VT(<<YMD(f[2])>> \o HMS(f[3]))>>
    [] r.reader = "bgm" /\ r.fn ->
         LET c == Count(Words(ln)[2]) IN <<VN(c), VN(NMul(c, Scale(r)))>>
    [] r.reader = "bgm" ->
         LET w == Words(ln)
             g == Split(ln, cCOMMA)
             c == CASE r.ship = "Atlantis" -> Count(w[5])
                    [] r.ship = "Thompson" -> Count(Words(g[3])[1])
                    [] r.ship = "Revelle" -> Count(w[2])
                    [] r.ship = "Langseth" -> Count(w[3])
             t == CASE r.ship = "Atlantis" -> <<YMD(w[2])>> \o HMS(w[3])
                    [] r.ship = "Thompson" -> <<MDY(g[1])>> \o HMS(g[2])
                    [] r.ship = "Revelle" -> ISO(w[1])
                    [] r.ship = "Langseth" -> DOY(w[2])
         IN <<VN(c), VN(NMul(c, Scale(r))), VT(t)>>
    [] r.reader = "laptop" /\ r.fn ->
         LET w == Words(ln) IN <<NumField(w[1]), VS(w[2])>>
    [] r.reader = "laptop" /\ r.ship = "Thompson" ->
         LET f == Split(ln, cCOMMA) IN
         [i \in 1..8 |-> IF i = 1 THEN NumField(f[4])
                         ELSE IF i = 8 THEN VT(<<MDY(f[1])>> \o HMS(f[2]))
                         ELSE NumField(f[11 + i])]
    [] r.reader = "laptop" /\ r.ship = "Langseth" -> GenRow(Split(LangsethTail(ln), cCOMMA))
    [] r.reader = "laptop" -> GenRow(Split(ln, cCOMMA))
    [] r.reader = "raw" /\ r.ship = "Thompson" ->
         LET f == Split(ln, cCOMMA) IN
         [i \in 1..21 |-> IF i = 21 THEN VT(<<MDY(f[1])>> \o HMS(f[2]))
                          ELSE IF i \in 1..3 THEN VS(f[i])
                          ELSE IF i \in 11..14 THEN Monitor(r, f[i]) ELSE NumField(f[i])]
    [] r.reader = "raw" /\ r.ship = "Sikuliaq" -> SikRow(r, ln)
    [] r.reader = "raw" ->
         LET f == Split(ln, cCOMMA) f1 == Split(l1, cCOMMA) IN
         [i \in 1..20 |-> IF i = 20 THEN RawTime(f1, f)
                          ELSE IF i = 1 THEN VS(f[1])
                          ELSE IF i \in 9..12 THEN Monitor(r, f[i]) ELSE NumField(f[i])]
=============================================================================
