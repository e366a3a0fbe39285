---------------------------- MODULE MC_FeedReader --------------------------
(* All files of up to MaxLen bytes over {tag, other, line end}. *)
EXTENDS FeedReader, Json
CONSTANTS MaxLen
MDescribed(r) == r.yaml
MIsFeed(r, l) == \E i \in 1..Len(l) : l[i] = 84
MRowOf(r, l) == l
MInit == \E n \in 0..MaxLen : \E d \in [1..n -> {84, 120, 10}] : \E y \in BOOLEAN :
           StartWith([data |-> d, yaml |-> y])
MNext == /\ (pc = "check" /\ req.yaml /\ Len(req.data) >= 1 => PrintT(ToJson([SCEN |-> req.data])))
         /\ Next
=============================================================================
