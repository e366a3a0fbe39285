------------------------------ MODULE TraceFeed ----------------------------
(* Recorded calls of read_other_stuff, each run through FeedReader. *)
EXTENDS FeedReader, Json, IOUtils
Cases == JsonDeserialize(IOEnv.TRACE)
VARIABLE k, judged
\* the tag without its $, and the yaml's format line for it ({} or {codes})
Tag(r) == IF r.tag[1] = cDOLLAR THEN Tail(r.tag) ELSE r.tag
Formats(r) == {i \in 1..Len(r.formats) : r.formats[i][1] = Tag(r)}
TextDescribed(r) == Formats(r) # {}
Format(r) == r.formats[CHOOSE i \in Formats(r) : TRUE][2]
NoBraces(s) == SelectSeq(s, LAMBDA c : c \notin {123, 125})
Names(r) == Tail(Split(NoBraces(Format(r)), cCOMMA))
TextIsFeed(r, l) == Has(l, Tag(r))
\* fields behind the tag, then the text in front of it
TextRowOf(r, l) ==
  LET d == <<cDOLLAR>> \o Tag(r) p == Find(l, d)
  IN Split(From(l, p + Len(d) + 1), cCOMMA) \o <<Upto(l, p - 1)>>
\* column information of the named fields
Info(r) == {<<c, f>> \in {Names(r)[i] : i \in 1..Len(Names(r))} \X {r.fields[i] : i \in 1..Len(r.fields)} :
              Before(c, <<cCOLON>>) = f[1]}
TInit == /\ k \in 1..Len(Cases) /\ judged = FALSE /\ StartWith(Cases[k].req)
TStep == Next /\ UNCHANGED <<k, judged>>
ValOk(e, o) ==
  IF e = <<>> THEN o.k = "m" \/ (o.k = "s" /\ o.s = <<>>)
  ELSE IF IsDecimal(e) THEN o.k = "n" /\ NClose(o.n, Decimal(e), -12, NPow10(-8))
  ELSE o.k = "s" /\ o.s = e
Mystery == <<109,121,115,116,101,114,121>>
Fails(o) ==
  IF out.kind # o.kind THEN {"kind-" \o o.kind \o "-for-" \o out.kind}
  ELSE IF out.kind = "raise" THEN {}
  ELSE IF o.names # Append(Names(req), Mystery) THEN {"names"}
  ELSE IF Len(out.rows) # Len(o.rows) THEN {"rows"}
  ELSE UNION {IF Len(out.rows[i]) # Len(o.rows[i]) THEN {"width"}
              ELSE {IF j = Len(out.rows[i]) THEN "mystery" ELSE "field" :
                       j \in {j \in 1..Len(out.rows[i]) : ~ValOk(out.rows[i][j], o.rows[i][j])}}
              : i \in 1..Len(out.rows)}
       \* a field that is a number in every line is a column of numbers
       \cup {"column-type" : j \in {j \in 1..Len(o.types) : out.rows # <<>> /\ o.types[j] # "n" /\ \A i \in 1..Len(out.rows) :
                                       Len(out.rows[i]) >= j /\ IsDecimal(out.rows[i][j])}}
       \cup (IF o.index THEN {} ELSE {"index"})
       \cup (IF {<<o.info[i][1], o.info[i][2]>> : i \in 1..Len(o.info)} = {<<x[1], x[2][2]>> : x \in Info(req)}
             THEN {} ELSE {"column-information"})
DesignFails == {x \in {"design"} : ~(AllAndOnly /\ RaiseRule)}
Judge == /\ Done /\ ~judged /\ judged' = TRUE
         /\ PrintT(<<"VERDICT", k, Fails(Cases[k].obs) \cup DesignFails>>)
         /\ UNCHANGED <<vars, k>>
TNext == TStep \/ Judge
=============================================================================
