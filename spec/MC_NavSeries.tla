---------------------------- MODULE MC_NavSeries ---------------------------
(* All small file sets over abstract lines; prints every scenario for replay. *)
EXTENDS NavSeries, Json
CONSTANTS MaxFiles, MaxLines, Times, Decims, Lons, Emit
\* a line: <<0>> other, <<1, time, index into Lons>> a fix, <<1, time, 0>> a dropout
Lines == {<<0>>} \cup ({1} \X Times \X (0..Len(Lons)))
MHasParser(r) == r.parser
MIsFix(r, l) == l[1] = 1
MIsDated(r, l) == FALSE
MDateOf(r, l) == 0
MFixOf(r, l, d) == [t |-> <<0, l[2], 0>>, miss |-> l[3] = 0,
                    lon |-> IF l[3] = 0 THEN NZero ELSE NRat(Lons[l[3]], 4), lat |-> NZero]
LonsA == <<40>>
FileSet == UNION {[1..n -> Lines] : n \in 0..MaxLines}
MInit == \E n \in 1..MaxFiles : \E fs \in [1..n -> FileSet] : \E d \in Decims :
           \E p \in (IF Emit THEN {TRUE} ELSE BOOLEAN) :
           StartWith([parser |-> p, files |-> fs, decim |-> d])
MPrint == pc = "check" /\ Emit => PrintT(ToJson([SCEN |-> [files |-> req.files, decim |-> req.decim]]))
MNext == (pc = "check" => MPrint) /\ Next
MStutter == Done /\ UNCHANGED vars
=============================================================================
