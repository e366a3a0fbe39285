----------------------------- MODULE GravReader ----------------------------
(***************************************************************************)
(* The gravity readers (read_bgm_rgs, read_bgm_raw, read_dgs_laptop,       *)
(* read_dgs_raw) as one state machine: the request is accepted or refused, *)
(* the files are read line by line, a line is a row, a header, blank, or   *)
(* rejected, and each finished file is appended to the table.              *)
(* As in NavSeries the meaning of a line is a constant operator.           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Supported(_),     \* request: is there a parser (and a scale) for it
          HeaderLines(_),   \* request: number of header lines of each file
          LineKind(_, _),   \* request, line: "row", "blank", "reject"
          RowOf(_, _, _)    \* request, first row line of the file, line: the row

VARIABLES req, pc, fi, li, first, part, table, skipped, out
vars == <<req, pc, fi, li, first, part, table, skipped, out>>

NoOut == [kind |-> "none", rows |-> <<>>]
StartWith(r) == /\ req = r /\ pc = "check" /\ fi = 1 /\ li = 1 /\ first = <<>>
                /\ part = <<>> /\ table = <<>> /\ skipped = 0 /\ out = NoOut

Refuse == /\ pc = "check" /\ ~Supported(req)
          /\ out' = [kind |-> "sentinel", rows |-> <<>>] /\ pc' = "done"
          /\ UNCHANGED <<req, fi, li, first, part, table, skipped>>
Accept == /\ pc = "check" /\ Supported(req) /\ pc' = "lines"
          /\ UNCHANGED <<req, fi, li, first, part, table, skipped, out>>

File == req.files[fi]
Reading == pc = "lines" /\ fi <= Len(req.files) /\ li <= Len(File)
Header == /\ Reading /\ li <= HeaderLines(req)
          /\ li' = li + 1 /\ UNCHANGED <<req, pc, fi, first, part, table, skipped, out>>
Line == File[li]
Body == Reading /\ li > HeaderLines(req)
Blank == /\ Body /\ LineKind(req, Line) = "blank"
         /\ li' = li + 1 /\ UNCHANGED <<req, pc, fi, first, part, table, skipped, out>>
Reject == /\ Body /\ LineKind(req, Line) = "reject"
          /\ li' = li + 1 /\ skipped' = skipped + 1
          /\ UNCHANGED <<req, pc, fi, first, part, table, out>>
Row == /\ Body /\ LineKind(req, Line) = "row"
       /\ LET f == IF first = <<>> THEN <<Line>> ELSE first IN
            /\ first' = f
            /\ part' = Append(part, RowOf(req, f[1], Line))
       /\ li' = li + 1
       /\ UNCHANGED <<req, pc, fi, table, skipped, out>>
EndFile == /\ pc = "lines" /\ fi <= Len(req.files) /\ li > Len(File)
           /\ table' = table \o part
           /\ part' = <<>> /\ first' = <<>> /\ li' = 1 /\ fi' = fi + 1
           /\ UNCHANGED <<req, pc, skipped, out>>
Finish == /\ pc = "lines" /\ fi > Len(req.files)
          /\ out' = [kind |-> "table", rows |-> table] /\ pc' = "done"
          /\ UNCHANGED <<req, fi, li, first, part, table, skipped>>
Next == Refuse \/ Accept \/ Header \/ Blank \/ Reject \/ Row \/ EndFile \/ Finish

-----------------------------------------------------------------------------
Done == pc = "done"
Table == Done /\ out.kind = "table"
\* lines of a file that are rows
RowLines(f) == SelectSeq(SubSeq(f, HeaderLines(req) + 1, Len(f)), LAMBDA l : LineKind(req, l) = "row")
RECURSIVE Total(_)
Total(i) == IF i = 0 THEN 0 ELSE Total(i - 1) + Len(RowLines(req.files[i]))
\* C05, C06, C07: one row for each row line; C09: files in order
CountRows == Table => Len(out.rows) = Total(Len(req.files))
FilesInOrder == Table =>
   \A i \in 1..Len(req.files) : LET r == RowLines(req.files[i]) IN
      \A j \in 1..Len(r) : out.rows[Total(i - 1) + j] = RowOf(req, r[1], r[j])
SentinelRule == Done => (out.kind = "sentinel" <=> ~Supported(req))
Prefix == pc = "lines" => Len(table) = Total(fi - 1)
=============================================================================
