----------------------------- MODULE FeedReader ----------------------------
(***************************************************************************)
(* read_other_stuff: a data file is scanned line by line up to its last    *)
(* byte; lines that hold the tag become rows.                              *)
(***************************************************************************)
EXTENDS Text
CONSTANTS Described(_),     \* request: does the yaml describe the tag
          IsFeed(_, _),     \* request, line: does the line hold the tag
          RowOf(_, _)       \* request, line: its row
VARIABLES req, pc, pos, rows, out
vars == <<req, pc, pos, rows, out>>
LF == 10
StartWith(r) == req = r /\ pc = "check" /\ pos = 1 /\ rows = <<>> /\ out = [kind |-> "none", rows |-> <<>>]
Refuse == /\ pc = "check" /\ ~Described(req)
          /\ out' = [kind |-> "raise", rows |-> <<>>] /\ pc' = "done" /\ UNCHANGED <<req, pos, rows>>
Accept == /\ pc = "check" /\ Described(req) /\ pc' = "scan" /\ UNCHANGED <<req, pos, rows, out>>
LineEnd == FirstIn(req.data, {LF}, pos)                 \* position of the line's end, or past the file
LineAt == RStrip(SubSeq(req.data, pos, LineEnd - 1))
Scan == /\ pc = "scan" /\ pos <= Len(req.data)
        /\ rows' = IF IsFeed(req, LineAt) THEN Append(rows, RowOf(req, LineAt)) ELSE rows
        /\ pos' = LineEnd + 1
        /\ UNCHANGED <<req, pc, out>>
Finish == /\ pc = "scan" /\ pos > Len(req.data)
          /\ out' = IF rows = <<>> THEN [kind |-> "raise", rows |-> <<>>] ELSE [kind |-> "table", rows |-> rows]
          /\ pc' = "done"
          /\ UNCHANGED <<req, pos, rows>>
Next == Refuse \/ Accept \/ Scan \/ Finish
-----------------------------------------------------------------------------
Done == pc = "done"
FeedLines == LET P == Split(req.data, LF)
             IN SelectSeq([i \in 1..Len(P) |-> RStrip(P[i])], LAMBDA l : IsFeed(req, l))
\* every line of the feed and only those, in file order, the last line included
AllAndOnly == Done /\ out.kind = "table" =>
   LET F == FeedLines IN
   /\ Len(out.rows) = Len(F)
   /\ \A i \in 1..Len(out.rows) : out.rows[i] = RowOf(req, F[i])
RaiseRule == Done => (out.kind = "raise" <=> (~Described(req) \/ FeedLines = <<>>))
=============================================================================
