------------------------------ MODULE MC_IniFile ---------------------------
(* All ini files of up to MaxLines lines: sections s1, s2, keys k1, k2, k3, others. *)
EXTENDS IniFile, Json, TLC
CONSTANTS MaxLines
Lines == {<<"section", "s1">>, <<"section", "s2">>, <<"key", "k1">>, <<"key", "k2">>, <<"skip", "">>}
MLineKind(l) == l[1]
MName(l) == l[2]
MInit == \E n \in 1..MaxLines : \E d \in [1..n -> Lines] : StartWith(d) /\ Distinct /\ DistinctSections
MNext == /\ (pc = "read" /\ li = 1 => PrintT(ToJson([SCEN |-> data])))
         /\ Next
=============================================================================
