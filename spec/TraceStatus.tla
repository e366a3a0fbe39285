---------------------------- MODULE TraceStatus ----------------------------
(* Recorded calls of decode_dgs_status_bits, on integers and on tables. *)
EXTENDS StatusBits, Json, IOUtils, TLC
Cases == JsonDeserialize(IOEnv.TRACE)
VARIABLE k, judged
TInit == k \in 1..Len(Cases) /\ judged = FALSE /\ StartWith(0)
RowBits(w) == [i \in 1..Len(Flags) |-> Bit(w, i)]
IntFails(q, o) ==
  (IF o.kind = "dicts" THEN {} ELSE {"kind-" \o o.kind})
  \cup (IF o.names = Flags /\ o.same THEN {} ELSE {"names"})
  \cup (IF Len(o.bits) = q.count /\ \A i \in 1..Len(o.bits) : o.bits[i] = RowBits(q.first + i - 1) THEN {} ELSE {"bits"})
TableFails(q, o) ==
  IF o.kind # "table" THEN {"kind-" \o o.kind}
  ELSE IF o.columns # <<q.columns[1]>> \o Flags \o Tail(q.columns) THEN {"columns"}
  ELSE IF Len(o.rows) # Len(q.rows) THEN {"rows"}
  ELSE (IF o.index = q.index THEN {} ELSE {"index"})
       \cup UNION {(IF SubSeq(o.rows[i], 2, 17) = [j \in 1..16 |-> IF Bit(q.words[i], j) = 1 THEN "1" ELSE "0"] THEN {} ELSE {"flags"})
                   \cup (IF <<o.rows[i][1]>> \o SubSeq(o.rows[i], 18, Len(o.rows[i])) = q.rows[i] THEN {} ELSE {"other-columns"})
                   : i \in 1..Len(q.rows)}
Fails(c) == IF c.req.kind = "ints" THEN IntFails(c.req, c.obs) ELSE TableFails(c.req, c.obs)
TNext == /\ ~judged /\ judged' = TRUE
         /\ PrintT(<<"VERDICT", k, Fails(Cases[k])>>)
         /\ UNCHANGED <<vars, k>>
=============================================================================
