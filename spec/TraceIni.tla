------------------------------- MODULE TraceIni ----------------------------
(* Recorded calls of clean_ini_to_toml, each run through IniFile. *)
EXTENDS IniFile, IniText, Json, IOUtils
Cases == JsonDeserialize(IOEnv.TRACE)
VARIABLE k, judged
TInit == /\ k \in 1..Len(Cases) /\ judged = FALSE /\ StartWith(Cases[k].req)
TStep == Next /\ UNCHANGED <<k, judged>>
SameVal(e, o) == e[1] = o[1] /\ (IF e[1] = "n" THEN NClose(o[2], e[2], -12, NPow10(-8)) ELSE e[2] = o[2])
SameKey(e, x) == e[1] = x[1] /\ e[2] = x[2]
Fails(o) ==
  IF o.kind # "toml" THEN {"not-toml-" \o o.kind}
  ELSE LET O == {o.entries[i] : i \in 1..Len(o.entries)} IN
       (IF {o.sections[i] : i \in 1..Len(o.sections)} = sections THEN {} ELSE {"sections"})
       \cup (IF \A e \in entries : \E x \in O : SameKey(e, x) THEN {} ELSE {"key-lost"})
       \cup (IF \A x \in O : \E e \in entries : SameKey(e, x) THEN {} ELSE {"key-invented"})
       \cup (IF \A e \in entries : \A x \in O : SameKey(e, x) => SameVal(e[3], x[3]) THEN {} ELSE {"value"})
       \cup (IF o.path THEN {} ELSE {"path"})
       \cup (IF o.kept THEN {} ELSE {"ini-changed"})
DesignFails == {x \in {"design"} : ~(AllKeys /\ AllSections /\ NoneLost)}
Judge == /\ Done /\ ~judged /\ judged' = TRUE
         /\ PrintT(<<"VERDICT", k, Fails(Cases[k].obs) \cup DesignFails>>)
         /\ UNCHANGED <<vars, k>>
TNext == TStep \/ Judge
=============================================================================
