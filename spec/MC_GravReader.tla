---------------------------- MODULE MC_GravReader --------------------------
(* All small file sets over abstract lines; prints each as a scenario. *)
EXTENDS GravReader, Json, TLC
CONSTANTS MaxFiles, MaxLines, Headers, Emit
Kinds == {"row", "blank", "reject"}
MSupported(r) == r.ok
MHeaderLines(r) == r.head
MLineKind(r, l) == l
MRowOf(r, f, l) == <<f, l>>
Files == UNION {[1..n -> Kinds] : n \in 0..MaxLines}
MInit == \E n \in 1..MaxFiles : \E fs \in [1..n -> Files] : \E h \in Headers : \E ok \in BOOLEAN :
           StartWith([ok |-> ok, head |-> h, files |-> fs])
MNext == /\ (pc = "check" /\ Emit /\ req.ok /\ req.head = 0 => PrintT(ToJson([SCEN |-> req.files])))
         /\ Next
=============================================================================
