------------------------------- MODULE Calls --------------------------------
(* A caller with two sets of arguments ("slots": arrays, lists, files and   *)
(* the parameters of one call).  He calls, edits the contents of his        *)
(* arguments in place, and overwrites results he was given.  A call returns *)
(* a value that is a function of the slot's parameters and its present      *)
(* contents, and leaves the contents alone.                                 *)
EXTENDS Naturals, Sequences, TLC
Slots == {1, 2}
VARIABLES heap,     \* slot -> which of two contents it holds now
          hist      \* operations so far
Op(o, s) == [op |-> o, slot |-> s]
CInit == heap = [s \in Slots |-> 1] /\ hist = <<>>
Result(s) == <<s, heap[s]>>           \* stands for the value
CallOp(s) == heap' = heap /\ hist' = Append(hist, Op("call", s))
EditOp(s) == heap' = [heap EXCEPT ![s] = 3 - @] /\ hist' = Append(hist, Op("edit", s))
\* overwrite the last result: no slot changes
ScribbleOp == hist # <<>> /\ hist[Len(hist)].op = "call" /\ heap' = heap /\ hist' = Append(hist, Op("scribble", 0))
=============================================================================
