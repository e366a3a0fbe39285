---------------------------- MODULE TraceCursor ----------------------------
(* Recorded event sequences of the real cursor, run through Cursor. *)
EXTENDS Cursor, Num, Json, IOUtils
Cases == JsonDeserialize(IOEnv.TRACE)
VARIABLE k, judged
TInit == /\ k \in 1..Len(Cases) /\ judged = FALSE /\ StartWith(Cases[k].req.t, Cases[k].req.events)
TStep == Next /\ UNCHANGED <<k, judged>>
Pick(s, v) == [i \in 1..Len(s) |-> v[s[i]]]
SnapFails(q, e, p, o) ==    \* expected state, state before, observed state
  (IF o.xs = Pick(e.stack, q.lon) /\ o.ys = Pick(e.stack, q.lat) THEN {} ELSE {"segment"})
  \cup (IF o.is = [i \in 1..Len(e.stack) |-> e.stack[i] - 1] THEN {} ELSE {"rows"})
  \cup (IF o.sx = Pick(e.stack, q.lon) /\ o.sy = Pick(e.stack, q.lat) THEN {} ELSE {"markers"})
  \cup (IF o.vis = (e.shown # 0) /\ o.vis2 = (e.shown # 0) THEN {} ELSE {"visibility"})
  \cup (IF e.shown > 0 => o.vx = <<q.x[e.shown]>> /\ o.hy = <<q.y[e.shown]>> THEN {} ELSE {"cross-hair"})
  \cup (IF e.dot # 0 => o.dx = <<q.lon[e.dot]>> /\ o.dy = <<q.lat[e.dot]>> THEN {} ELSE {"dot"})
  \cup (IF e = p \/ o.drew THEN {} ELSE {"not-drawn"})
Before0 == [stack |-> <<>>, shown |-> -1, dot |-> 0]
Fails(q, o) ==
  IF Len(o) # Len(hist) THEN {"events"}
  ELSE UNION {SnapFails(q, hist[i], IF i = 1 THEN Before0 ELSE hist[i-1], o[i]) : i \in 1..Len(hist)}
Judge == /\ Done /\ ~judged /\ judged' = TRUE
         /\ PrintT(<<"VERDICT", k, Fails(Cases[k].req, Cases[k].obs)>>)
         /\ UNCHANGED <<vars, k>>
TNext == TStep \/ Judge
=============================================================================
