----------------------------- MODULE NavSeries -----------------------------
(***************************************************************************)
(* read_nav as a state machine: the lines of the files are read one after  *)
(* the other, lines with the talker become fixes, each finished file adds  *)
(* its (decimated) fixes to the series, and the finished series is sorted, *)
(* thinned to one fix per time, and moved to one side of the 180 degree    *)
(* meridian if it crosses it.                                              *)
(*                                                                         *)
(* What a line means is left to the constant operators, so that the same   *)
(* machine is model checked over abstract lines (MC_NavSeries) and run     *)
(* over the text of real files (TraceNav, with the decoders of NavText).   *)
(***************************************************************************)
EXTENDS Num, Calendar, FiniteSets

CONSTANTS HasParser(_),       \* request: is there a parser and a talker for it
          IsFix(_, _),        \* request, line: does the line carry the talker
          IsDated(_, _),      \* request, line: does another line give the date
          DateOf(_, _),       \* request, line: the date a dated line gives
          FixOf(_, _, _)      \* request, line, last date: [t, lon, lat, miss]

VARIABLES req,      \* the call: vessel, talker, files, decimation, ...
          pc,       \* "check", "lines", "assemble", "shift", "done"
          fi, li,   \* file and line being read
          date,     \* date seen since the last fix ({} or {date})
          fixes,    \* fixes of the current file
          series,   \* fixes contributed by the finished files
          out       \* result: [kind |-> "none" | "sentinel" | "table", rows |-> ...]
vars == <<req, pc, fi, li, date, fixes, series, out>>

NoOut == [kind |-> "none", rows |-> <<>>]
Sentinel == [kind |-> "sentinel", rows |-> <<>>]     \* the number -999

StartWith(r) ==
  /\ req = r /\ pc = "check" /\ fi = 1 /\ li = 1 /\ date = {}
  /\ fixes = <<>> /\ series = <<>> /\ out = NoOut

Refuse == /\ pc = "check" /\ ~HasParser(req)
          /\ out' = Sentinel /\ pc' = "done"
          /\ UNCHANGED <<req, fi, li, date, fixes, series>>
Accept == /\ pc = "check" /\ HasParser(req)
          /\ pc' = "lines"
          /\ UNCHANGED <<req, fi, li, date, fixes, series, out>>

File == req.files[fi]
Reading == pc = "lines" /\ fi <= Len(req.files) /\ li <= Len(File)
ReadOther ==
  /\ Reading /\ ~IsFix(req, File[li])
  /\ date' = IF IsDated(req, File[li]) THEN {DateOf(req, File[li])} ELSE date
  /\ li' = li + 1
  /\ UNCHANGED <<req, pc, fi, fixes, series, out>>
ReadFix ==
  /\ Reading /\ IsFix(req, File[li])
  /\ fixes' = Append(fixes, FixOf(req, File[li], date))
  /\ date' = {}
  /\ li' = li + 1
  /\ UNCHANGED <<req, pc, fi, series, out>>

FirstAt(f, t) == CHOOSE i \in 1..Len(f) : f[i].t = t /\ \A j \in 1..(i-1) : f[j].t # t
\* a time that is repeated within a file has the position of its first fix
OneePos(f) == [i \in 1..Len(f) |-> f[FirstAt(f, f[i].t)]]
Every(f, n) == IF n <= 1 THEN f
               ELSE [j \in 1..((Len(f) + n - 1) \div n) |-> f[1 + (j - 1) * n]]
EndFile ==
  /\ pc = "lines" /\ fi <= Len(req.files) /\ li > Len(File)
  /\ IF fixes = <<>>
     THEN out' = Sentinel /\ pc' = "done" /\ UNCHANGED <<series>>
     ELSE /\ series' = series \o Every(OneePos(fixes), req.decim)
          /\ UNCHANGED <<out, pc>>
  /\ fi' = fi + 1 /\ li' = 1 /\ fixes' = <<>> /\ date' = {}
  /\ UNCHANGED req

\* sorted by time, first fix of each time
SortedFirst(s) ==
  LET T == {s[i].t : i \in 1..Len(s)}
      ts == SetToSortSeq(T, TLt)
  IN [i \in 1..Len(ts) |-> s[FirstAt(s, ts[i])]]
Assemble ==
  /\ pc = "lines" /\ fi > Len(req.files)
  /\ out' = [kind |-> "table", rows |-> SortedFirst(series)]
  /\ pc' = "shift"
  /\ UNCHANGED <<req, fi, li, date, fixes, series>>

One == NInt(1)
Jump(a, b) == ~a.miss /\ ~b.miss /\ NLt(One, NAbs(NSub(b.lon, a.lon)))
HasJump(rows) == \E i \in 1..(Len(rows)-1) : Jump(rows[i], rows[i+1])
CountSign(rows, sg) == Cardinality({i \in 1..Len(rows) : ~rows[i].miss /\ NSign(rows[i].lon) = sg})
ToSide(rows) ==
  LET east == CountSign(rows, 1) > CountSign(rows, -1)
      full == NInt(360)
  IN [i \in 1..Len(rows) |->
        LET r == rows[i] IN
        IF r.miss THEN r
        ELSE IF east /\ NSign(r.lon) = -1 THEN [r EXCEPT !.lon = NAdd(r.lon, full)]
        ELSE IF ~east /\ NSign(r.lon) = 1 THEN [r EXCEPT !.lon = NSub(r.lon, full)]
        ELSE r]
\* ad hoc smoothing of what still jumps, in pairs (kept as the code does it)
Jumps(rows) == SetToSortSeq({i \in 1..(Len(rows)-1) : Jump(rows[i], rows[i+1])}, LAMBDA a, b : a < b)
Smooth(rows) ==
  LET J == Jumps(rows) IN
  IF Len(J) % 2 # 0 THEN rows
  ELSE FoldLeft(LAMBDA s, k : LET i == J[2*k-1] IN
         IF i + 2 > Len(s) THEN s
         ELSE IF s[i].miss \/ s[i+2].miss THEN [s EXCEPT ![i+1].miss = TRUE]
         ELSE [s EXCEPT ![i+1].lon = NDivI(NAdd(s[i].lon, s[i+2].lon), 2)],
         rows, [k \in 1..(Len(J) \div 2) |-> k])
KeepSide == /\ pc = "shift" /\ ~HasJump(out.rows)
            /\ pc' = "done"
            /\ UNCHANGED <<req, fi, li, date, fixes, series, out>>
MoveSide == /\ pc = "shift" /\ HasJump(out.rows)
            /\ out' = [out EXCEPT !.rows = Smooth(ToSide(out.rows))]
            /\ pc' = "done"
            /\ UNCHANGED <<req, fi, li, date, fixes, series>>

Next == Refuse \/ Accept \/ ReadOther \/ ReadFix \/ EndFile \/ Assemble \/ KeepSide \/ MoveSide

-----------------------------------------------------------------------------
(* Properties of the design *)
Done == pc = "done"
Table == Done /\ out.kind = "table"
\* C02: strictly increasing times
Increasing == Table => \A i \in 1..(Len(out.rows)-1) : TLt(out.rows[i].t, out.rows[i+1].t)
\* C02: exactly the times the files contribute
TimesOf(f) == {f[i].t : i \in 1..Len(f)}
ExactTimes == Table => TimesOf(out.rows) = TimesOf(series)
\* C02: the earliest contribution gives the position
FirstWins == Table /\ ~HasJump(SortedFirst(series)) =>
   \A i \in 1..Len(out.rows) : out.rows[i] = series[FirstAt(series, out.rows[i].t)]
\* C03: longitudes agree modulo 360 with those read, if the only jumps are the crossing
Plain(rows) == \A i \in 1..(Len(rows)-1) :
   rows[i].miss \/ rows[i+1].miss \/
   LET d == NAbs(NSub(rows[i+1].lon, rows[i].lon)) IN NLe(d, One) \/ NLe(NInt(359), d)
OffGreenwich(rows) == ~\E i \in 1..(Len(rows)-1) :
   ~rows[i].miss /\ ~rows[i+1].miss /\ NSign(rows[i].lon) * NSign(rows[i+1].lon) <= 0
   /\ NLe(NAbs(NSub(rows[i+1].lon, rows[i].lon)), One)
Complete(rows) == \A i \in 1..Len(rows) : ~rows[i].miss
Scope3 == Table /\ Plain(SortedFirst(series)) /\ OffGreenwich(SortedFirst(series))
          /\ Complete(SortedFirst(series))
SameMod360 == Scope3 => LET b == SortedFirst(series) IN \A i \in 1..Len(b) :
   LET d == NSub(out.rows[i].lon, b[i].lon) IN d \in {NZero, NInt(360), NInt(-360)}
NoJumpLeft == Scope3 => ~HasJump(out.rows)
MajoritySide == Scope3 /\ HasJump(SortedFirst(series)) =>
   LET b == SortedFirst(series) east == CountSign(b, 1) > CountSign(b, -1)
   IN \A i \in 1..Len(out.rows) : NSign(out.rows[i].lon) = (IF east THEN 1 ELSE -1)
\* C04: a refused request or a file without fixes gives the sentinel, never a table
SentinelRule == Done => (out.kind = "sentinel" <=>
    (~HasParser(req) \/ \E f \in 1..Len(req.files) :
        \A l \in 1..Len(req.files[f]) : ~IsFix(req, req.files[f][l])))
=============================================================================
