----------------------------- MODULE TraceSurvey ----------------------------
(* Recorded surveys: the text of the nav files runs through NavSeries, the    *)
(* text of the meter's files through GravReader, the meter's ini file through *)
(* IniFile, and what these give through Survey with Normal, Eotvos and Tide.  *)
EXTENDS Survey, Elem, NavText, GravText, IniText, Json, IOUtils
Cases == JsonDeserialize(IOEnv.TRACE)
VARIABLES k, judged,
          nreq, npc, nfi, nli, ndate, nfixes, nseries, nout,          \* reading the nav files
          greq, gpc, gfi, gli, gfirst, gpart, gtable, gskipped, gout, \* reading the meter's files
          idata, ipc, ili, iopen, isections, ientries                 \* reading the ini file
NS == INSTANCE NavSeries WITH req <- nreq, pc <- npc, fi <- nfi, li <- nli, date <- ndate, fixes <- nfixes, series <- nseries, out <- nout,
        HasParser <- TextHasParser, IsFix <- TextIsFix, IsDated <- TextIsDated, DateOf <- TextDateOf, FixOf <- TextFixOf
GR == INSTANCE GravReader WITH req <- greq, pc <- gpc, fi <- gfi, li <- gli, first <- gfirst, part <- gpart, table <- gtable, skipped <- gskipped, out <- gout,
        Supported <- TextSupported, HeaderLines <- TextHeaderLines, LineKind <- TextLineKind, RowOf <- TextRowOf
IF_ == INSTANCE IniFile WITH data <- idata, pc <- ipc, li <- ili, open <- iopen, sections <- isections, entries <- ientries,
        LineKind <- IniLineKind, SectionOf <- IniSectionOf, KeyOf <- IniKeyOf, ValueOf <- IniValueOf
EO == INSTANCE Eotvos WITH track <- fixes, at <- recs, corr <- rows
NG == INSTANCE Normal
TD == INSTANCE Tide
nvars == <<nreq, npc, nfi, nli, ndate, nfixes, nseries, nout>>
gvars == <<greq, gpc, gfi, gli, gfirst, gpart, gtable, gskipped, gout>>
ivars == <<idata, ipc, ili, iopen, isections, ientries>>
Q == Cases[k].req
O == Cases[k].obs

\* arithmetic in which a missing value stays missing
M2(F(_, _), a, b) == IF IsNum(a) /\ IsNum(b) THEN F(a, b) ELSE <<>>
SecondsFrom(a, b) == NAdd(NInt(86400 * (b[1] - a[1]) + b[2] - a[2]), NMul(NInt(b[3] - a[3]), NPow10(-6)))
TBetween(a, b, t) ==
  LET w == NDiv(SecondsFrom(a.t, t), SecondsFrom(a.t, b.t))
      mix(x, y) == NAdd(x, NMul(NSub(y, x), w))
  IN <<mix(a.pos[1], b.pos[1]), mix(a.pos[2], b.pos[2])>>
EllA == NInt(6378137)
Flattening == NDiv(NSub(EllA, NAdd(NInt(6356752), NRat(3142, 10000))), EllA)
Inner(n, i) == IF i = 1 THEN 2 ELSE IF i = n THEN n - 1 ELSE i
TReduce(w, i) ==
  LET lon == w[i].pos[1] lat == w[i].pos[2]
      s == NSqr(SinCosDeg(lat)[1])
      normal == NAdd(NG!NormalGravity(s), NG!Correction(s, Q.ht[i], FALSE))
      j == Inner(Len(w), i)
      win == [lon |-> [m \in (j-1)..(j+1) |-> w[m].pos[1]], lat |-> [m \in (j-1)..(j+1) |-> w[m].pos[2]], ht |-> [m \in (j-1)..(j+1) |-> Q.ht[m]]]
      eot == EO!Correction(win, j, Q.samp, EllA, Flattening)
      tp == TD!Pair(w[i].t[1], w[i].t[2], lon, lat, NZero)
      tide == NAdd(tp[1], tp[2])
      full == M2(NAdd, w[i].g, NAdd(eot, tide))
  IN [normal |-> normal, eotvos |-> eot, tide |-> tide, full |-> full, faa |-> M2(NSub, full, normal)]

SENSOR == <<83,101,110,115,111,114>>
GRAVCAL == <<71,114,97,118,67,97,108>>
G0 == <<103,48>>
IniNumber(key) == LET e == CHOOSE e \in ientries : e[1] = <<SENSOR>> /\ e[2] = key IN e[3][2]
\* gravity of a record in milligal: the reading, calibrated if it is counts, plus the bias of the tie
Column(c) == LET C == Cols(greq) IN CHOOSE j \in 1..Len(C) : C[j] = c
GravOf(row) ==
  LET v == row[Column(Q.gcol)]
      x == IF v.k = "n" THEN v.n ELSE <<>>
      y == IF Q.cal /\ IsNum(x) THEN NAdd(NDiv(NMul(x, IniNumber(GRAVCAL)), NInt(8388607)), IniNumber(G0)) ELSE x
  IN M2(NAdd, y, Q.bias)

TInit == /\ k \in 1..Len(Cases) /\ judged = FALSE /\ SStart
         /\ NS!StartWith(Cases[k].req.nav) /\ GR!StartWith(Cases[k].req.grav) /\ IF_!StartWith(Cases[k].req.ini)
ReadNav == ~NS!Done /\ NS!Next /\ UNCHANGED <<gvars, ivars, svars, k, judged>>
ReadMeter == NS!Done /\ ~GR!Done /\ GR!Next /\ UNCHANGED <<nvars, ivars, svars, k, judged>>
ReadIni == NS!Done /\ GR!Done /\ ~IF_!Done /\ IF_!Next /\ UNCHANGED <<nvars, gvars, svars, k, judged>>
AllRead == NS!Done /\ GR!Done /\ IF_!Done
Join == /\ AllRead /\ stage = "read" /\ nout.kind = "table" /\ gout.kind = "table"
        /\ LET f == SelectSeq(nout.rows, LAMBDA r : ~r.miss)
           IN SLoad(MkSeq(LAMBDA i : [t |-> f[i].t, pos |-> <<f[i].lon, f[i].lat>>], Len(f)),
                    MkSeq(LAMBDA i : LET r == gout.rows[i] IN [t |-> r[Column("date_time")].t, g |-> GravOf(r)], Len(gout.rows)))
        /\ UNCHANGED <<nvars, gvars, ivars, k, judged>>
Work == AllRead /\ SNext /\ UNCHANGED <<nvars, gvars, ivars, k, judged>>
-----------------------------------------------------------------------------
\* times are good to 2 microseconds, so positions to that times the speed over ground (degrees per second)
Speed == FoldLeft(LAMBDA m, i : LET a == fixes[i] b == fixes[i + 1]
                                IN NMax(m, NDiv(NMax(NAbs(NSub(b.pos[1], a.pos[1])), NAbs(NSub(b.pos[2], a.pos[2]))), SecondsFrom(a.t, b.t))),
                  NZero, Idx(Len(fixes) - 1))
PTol(v) == NAdd(NMul(v, NMul(NInt(4), NPow10(-6))), NPow10(-12))
\* second differences of positions: 4 of them, radians, 21.4 km of normal deviation, milligal (4 * 21400 * 10^5 / 57.3 < 1.5 * 10^8); horizontal terms are smaller
ETol(v) == NAdd(NMul(NMul(PTol(v), NMul(NInt(15), NPow10(7))), NMax(Q.samp, NSqr(Q.samp))), NMul(NInt(2), NPow10(-4)))
TTol == NMul(NInt(5), NPow10(-5))      \* a time just below a full second may be read as just above
Near(x, e, tol) == IF IsNum(e) THEN NNear(x, e, tol) ELSE IsNaN(x)
RowFails(i, v) ==
  LET e == anomaly[i] o == O.rows[i]
      et == NAdd(ETol(v), NMul(NAbs(e.eotvos), NPow10(-7))) all == NAdd(NAdd(et, TTol), NPow10(-5))
      nt == NAdd(NMul(PTol(v), NInt(200)), NPow10(-6))
  IN (IF TNear(o.t, rows[i].t, 2) THEN {} ELSE {"time"})
     \cup (IF NNear(o.lon, rows[i].pos[1], PTol(v)) /\ NNear(o.lat, rows[i].pos[2], PTol(v)) THEN {} ELSE {"position"})
     \cup (IF NNear(o.normal, e.normal, nt) THEN {} ELSE {"normal-gravity"})
     \cup (IF NNear(o.eotvos, e.eotvos, et) THEN {} ELSE {"eotvos"})
     \cup (IF NNear(o.tide, e.tide, TTol) THEN {} ELSE {"tide"})
     \cup (IF Near(o.full, e.full, all) THEN {} ELSE {"full-field"})
     \cup (IF Near(o.faa, e.faa, NAdd(all, nt)) THEN {} ELSE {"free-air-anomaly"})
Fails ==
  IF O.kind # "table" THEN {"kind-" \o O.kind}
  ELSE IF Len(O.rows) # Len(rows) THEN {"records"}
  ELSE LET v == Speed IN UNION {RowFails(i, v) : i \in 1..Len(rows)}
DesignFails == {x \in {"design"} : ~(SComplete /\ SOrdered /\ SAtFix)}
Judge == /\ SDone /\ ~judged /\ judged' = TRUE
         /\ PrintT(<<"VERDICT", k, Fails \cup DesignFails>>)
         /\ UNCHANGED <<nvars, gvars, ivars, svars, k>>
TNext == ReadNav \/ ReadMeter \/ ReadIni \/ Join \/ Work \/ Judge
=============================================================================
