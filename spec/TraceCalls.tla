----------------------------- MODULE TraceCalls -----------------------------
(* Recorded histories of two calls of the real library, replayed against    *)
(* Calls: every call returns what the same call returns in a fresh process  *)
(* and leaves its arguments and files as they were.                         *)
EXTENDS Calls, Json, IOUtils
Cases == JsonDeserialize(IOEnv.TRACE)
VARIABLES k, i, bad
tvars == <<heap, hist, k, i, bad>>
R == Cases[k]
N == Len(R.events)
TInit == CInit /\ k \in 1..Len(Cases) /\ i = 0 /\ bad = {}
E == R.events[i + 1]
CallFails(e) ==
  LET v == heap[e.slot] IN
  (IF e.before # R.contents[e.slot][v] THEN {"harness-lost-track"} ELSE {})
  \cup (IF e.after # e.before THEN {"argument-changed"} ELSE {})
  \cup (IF e.out # R.fresh[e.slot][v] THEN {"result-depends-on-history"} ELSE {})
Step == /\ i < N /\ i' = i + 1 /\ UNCHANGED k
        /\ CASE E.op = "call" -> CallOp(E.slot) /\ bad' = bad \cup CallFails(E)
             [] E.op = "edit" -> EditOp(E.slot) /\ UNCHANGED bad
             [] OTHER -> ScribbleOp /\ UNCHANGED bad
Judge == /\ i = N /\ i' = N + 1 /\ UNCHANGED <<heap, hist, k, bad>>
         /\ PrintT(<<"VERDICT", k, bad \cup (IF R.kind = "ran" THEN {} ELSE {"no-answer"})>>)
TNext == Step \/ Judge
=============================================================================
