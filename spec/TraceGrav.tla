------------------------------ MODULE TraceGrav ----------------------------
(* Recorded calls of the gravity readers, each run through GravReader. *)
EXTENDS GravReader, GravText, Json, IOUtils
Cases == JsonDeserialize(IOEnv.TRACE)
VARIABLE k, judged
TInit == /\ k \in 1..Len(Cases) /\ judged = FALSE /\ StartWith(Cases[k].req)
TStep == Next /\ UNCHANGED <<k, judged>>

ValFails(c, e, o) ==    \* column, expected value, observed value
  LET bad == {c} IN
  CASE e.k = "n" -> IF o.k \in {"n"} /\ NClose(o.n, e.n, -12, NPow10(-8)) THEN {} ELSE bad
    [] e.k = "s" -> IF o.k = "s" /\ o.s = e.s THEN {}
                    ELSE IF o.k = "n" /\ IsDecimal(e.s) /\ NClose(o.n, Decimal(e.s), -12, NOne) THEN {}
                    ELSE bad
    [] e.k = "t" -> IF o.k = "t" /\ TNear(o.t, e.t, 2) THEN {} ELSE bad
    [] e.k = "u" -> IF o.k \in {"t", "u"} /\ TNear(o.t, e.t, 2) THEN {} ELSE bad
    [] e.k = "m" -> IF o.k = "m" THEN {} ELSE bad
    [] e.k = "a" -> IF o.k \in {"m", "a"} THEN {} ELSE bad
\* a column of numbers comes as numbers and a column of times as times, so that both can be computed with
TypeFails(c, es, t) ==    \* column, expected values, observed type
  CASE es # {} /\ es \subseteq {"n"} /\ t # "n" -> {"type-" \o c}
    [] es = {"t"} /\ t # "t" -> {"type-" \o c}
    [] OTHER -> {}
Fails(o) ==
  IF out.kind # o.kind THEN {"kind-" \o o.kind \o "-for-" \o out.kind}
  ELSE IF out.kind = "sentinel" THEN {}
  ELSE IF Len(out.rows) # o.n THEN {"rows"}
  ELSE LET C == Cols(req) IN
       UNION {IF C[j] \notin DOMAIN o.cols
              THEN (IF out.rows # <<>> /\ \A i \in 1..Len(out.rows) : out.rows[i][j].k = "a" THEN {} ELSE {"column-" \o C[j]})
              ELSE UNION {ValFails(C[j], out.rows[i][j], o.cols[C[j]][i]) : i \in 1..Len(out.rows)}
                   \cup TypeFails(C[j], {out.rows[i][j].k : i \in 1..Len(out.rows)}, o.types[C[j]])
              : j \in 1..Len(C)}
       \cup (IF o.index THEN {} ELSE {"index"})
DesignFails == {x \in {"design"} : ~(CountRows /\ FilesInOrder /\ SentinelRule)}
Judge == /\ Done /\ ~judged /\ judged' = TRUE
         /\ PrintT(<<"VERDICT", k, Fails(Cases[k].obs) \cup DesignFails>>)
         /\ UNCHANGED <<vars, k>>
TNext == TStep \/ Judge
=============================================================================
