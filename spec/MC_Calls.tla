------------------------------ MODULE MC_Calls ------------------------------
(* Runs the caller against a pure library and against libraries that keep   *)
(* something between calls.  The pure library never differs from the        *)
(* specification; for every other one TLC finds the shortest histories that *)
(* give it away, and prints them as scenarios for the real code.            *)
(*  once     remembers the first result of each parameter set               *)
(*  shared   remembers a result whatever the parameters                     *)
(*  last     remembers the last result while the parameters stay the same   *)
(*  alias    remembers by parameters and contents, hands out its own object *)
(*  sticky   a call of slot 1 changes every later call of slot 2            *)
(*  first    behaves differently from its second call on                    *)
(*  mutates  changes the contents it was given                              *)
(*  late     changes the contents only when called again                    *)
EXTENDS Calls, Json
CONSTANTS Impl, MaxLen
VARIABLES impl, cache, objs, alien, bad
vars == <<heap, hist, impl, cache, objs, alien, bad>>
Unset == <<0, 0>>
MInit == /\ CInit /\ impl \in Impl /\ bad = FALSE /\ alien = [s \in Slots |-> FALSE]
         /\ cache = [s \in 0..2 |-> Unset]
         /\ objs = [r \in Slots \X {1, 2} |-> "new"]
Calls(s) == \E i \in 1..Len(hist) : hist[i] = Op("call", s)
Total == Len(SelectSeq(hist, LAMBDA e : e.op = "call"))
Outcome(s) ==
  CASE impl = "pure" -> Result(s)
    [] impl = "once" -> IF cache[s] = Unset THEN Result(s) ELSE cache[s]
    [] impl = "shared" -> IF cache[0] = Unset THEN Result(s) ELSE cache[0]
    [] impl = "last" -> IF cache[0] # Unset /\ cache[0][1] = s THEN cache[0] ELSE Result(s)
    [] impl = "alias" -> IF objs[Result(s)] = "dirty" THEN Unset ELSE Result(s)
    [] impl = "sticky" -> IF s = 2 /\ Calls(1) THEN Unset ELSE Result(s)
    [] impl = "first" -> IF Total > 0 THEN Unset ELSE Result(s)
    [] OTHER -> IF alien[s] THEN Unset ELSE Result(s)
MCall(s) ==
  LET o == Outcome(s) IN
  /\ CallOp(s)
  /\ cache' = IF impl = "last" THEN [cache EXCEPT ![0] = o] ELSE
              [cache EXCEPT ![s] = IF @ = Unset THEN o ELSE @, ![0] = IF @ = Unset THEN o ELSE @]
  /\ objs' = [r \in DOMAIN objs |-> IF r = Result(s) THEN (IF objs[r] = "dirty" THEN "dirty" ELSE "out")
                                    ELSE IF objs[r] = "out" THEN "kept" ELSE objs[r]]
  /\ alien' = [alien EXCEPT ![s] = @ \/ impl = "mutates" \/ (impl = "late" /\ Calls(s))]
  /\ bad' = (o # Result(s) \/ alien'[s])
Live == ~bad /\ Len(hist) < MaxLen
MNext == /\ Live /\ UNCHANGED impl
         /\ \/ \E s \in Slots : MCall(s)
            \/ \E s \in Slots : EditOp(s) /\ UNCHANGED <<cache, objs, bad>> /\ alien' = [alien EXCEPT ![s] = FALSE]
            \/ ScribbleOp /\ objs' = [r \in DOMAIN objs |-> IF objs[r] = "out" THEN "dirty" ELSE objs[r]] /\ UNCHANGED <<cache, alien, bad>>
\* an edit right before an edit of the same slot, or by slot 2 before it is ever called, adds nothing
Useful == \A i \in 1..(Len(hist) - 1) : ~(hist[i].op = "edit" /\ hist[i + 1] = hist[i])
PureIsPure == impl = "pure" => ~bad
Emit == bad => PrintT(ToJson([SCEN |-> [impl |-> impl, hist |-> hist]]))
=============================================================================
