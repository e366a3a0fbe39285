------------------------------- MODULE IniFile -----------------------------
(***************************************************************************)
(* clean_ini_to_toml: the lines of an ini file are read one by one; a      *)
(* section line opens a section, a key line adds an entry to the section   *)
(* that is open.  What the toml file says is exactly these entries.        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS LineKind(_),   \* "section", "key", "skip" (comment or blank)
          SectionOf(_), KeyOf(_), ValueOf(_)
VARIABLES data, pc, li, open, sections, entries
vars == <<data, pc, li, open, sections, entries>>
StartWith(d) == data = d /\ pc = "read" /\ li = 1 /\ open = <<>> /\ sections = {} /\ entries = {}
More == pc = "read" /\ li <= Len(data)
Line == data[li]
Skip == More /\ LineKind(Line) = "skip" /\ li' = li + 1 /\ UNCHANGED <<data, pc, open, sections, entries>>
Section == /\ More /\ LineKind(Line) = "section"
           /\ open' = <<SectionOf(Line)>> /\ sections' = sections \cup {SectionOf(Line)}
           /\ li' = li + 1 /\ UNCHANGED <<data, pc, entries>>
Key == /\ More /\ LineKind(Line) = "key"
       /\ entries' = entries \cup {<<open, KeyOf(Line), ValueOf(Line)>>}
       /\ li' = li + 1 /\ UNCHANGED <<data, pc, open, sections>>
Finish == pc = "read" /\ li > Len(data) /\ pc' = "done" /\ UNCHANGED <<data, li, open, sections, entries>>
Next == Skip \/ Section \/ Key \/ Finish
-----------------------------------------------------------------------------
Done == pc = "done"
Kind(i) == LineKind(data[i])
KeyLines == {i \in 1..Len(data) : Kind(i) = "key"}
SectionLines == {i \in 1..Len(data) : Kind(i) = "section"}
Owner(i) == LET S == {j \in SectionLines : j < i} IN
            IF S = {} THEN <<>> ELSE <<SectionOf(data[CHOOSE j \in S : \A l \in S : l <= j])>>
AllKeys == Done => entries = {<<Owner(i), KeyOf(data[i]), ValueOf(data[i])>> : i \in KeyLines}
AllSections == Done => sections = {SectionOf(data[i]) : i \in SectionLines}
Distinct == \A i, j \in KeyLines : i # j => <<Owner(i), KeyOf(data[i])>> # <<Owner(j), KeyOf(data[j])>>
DistinctSections == \A i, j \in SectionLines : i # j => SectionOf(data[i]) # SectionOf(data[j])
NoneLost == Done /\ Distinct => Cardinality(entries) = Cardinality(KeyLines)
=============================================================================
