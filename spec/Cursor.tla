------------------------------- MODULE Cursor ------------------------------
(***************************************************************************)
(* The picking cursor: mouse events drive a cross-hair over the samples    *)
(* and a stack of picked samples.  Rows and positions are 1-based here.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES t,        \* times of the samples, increasing
          events, n,  \* the events and how many have happened
          stack,    \* rows picked
          shown,    \* row under the cross-hair, 0 when hidden, -1 at the start (in the corner)
          dot,      \* row at which the map dot stands, 0 before the first move
          hist      \* states shown after each event
vars == <<t, events, n, stack, shown, dot, hist>>
StartWith(times, evs) == t = times /\ events = evs /\ n = 0 /\ stack = <<>> /\ shown = -1 /\ dot = 0 /\ hist = <<>>
Abs(a) == IF a < 0 THEN -a ELSE a
Rows == 1..Len(t)
\* first row at or after x, the last one beyond the end
AtOrAfter(x) == IF \A i \in Rows : t[i] < x THEN Len(t)
                ELSE CHOOSE i \in Rows : t[i] >= x /\ \A j \in Rows : t[j] >= x => i <= j
\* row closest in time, the earlier one of two
Closest(x) == CHOOSE i \in Rows : \A j \in Rows : Abs(t[i] - x) < Abs(t[j] - x)
                                     \/ (Abs(t[i] - x) = Abs(t[j] - x) /\ i <= j)
Event == events[n + 1]
Kind == Event[1]
Log(s, h, d) == hist' = Append(hist, [stack |-> s, shown |-> h, dot |-> d])
More == n < Len(events)
Move == /\ More /\ Kind = "move"
        /\ LET r == AtOrAfter(Event[2]) IN shown' = r /\ dot' = Closest(t[r]) /\ Log(stack, r, Closest(t[r]))
        /\ n' = n + 1 /\ UNCHANGED <<t, events, stack>>
Leave == /\ More /\ Kind = "leave"
         /\ shown' = 0 /\ Log(stack, 0, dot)
         /\ n' = n + 1 /\ UNCHANGED <<t, events, stack, dot>>
Push == /\ More /\ Kind = "left"
        /\ LET s == Append(stack, Closest(Event[2])) IN stack' = s /\ Log(s, shown, dot)
        /\ n' = n + 1 /\ UNCHANGED <<t, events, shown, dot>>
Pop == /\ More /\ Kind = "right"
       /\ LET s == IF stack = <<>> THEN <<>> ELSE SubSeq(stack, 1, Len(stack) - 1) IN stack' = s /\ Log(s, shown, dot)
       /\ n' = n + 1 /\ UNCHANGED <<t, events, shown, dot>>
Other == /\ More /\ Kind = "other"
         /\ Log(stack, shown, dot)
         /\ n' = n + 1 /\ UNCHANGED <<t, events, stack, shown, dot>>
Next == Move \/ Leave \/ Push \/ Pop \/ Other
Done == n = Len(events)
-----------------------------------------------------------------------------
Count(k) == Cardinality({i \in 1..n : events[i][1] = k})
\* the dot stands at the sample of the cross-hair's time
DotAgrees == shown > 0 => dot = shown
InRange == \A i \in 1..Len(stack) : stack[i] \in Rows
\* never more picks than left clicks, and exactly the difference if nothing was popped from an empty stack
Height == Len(stack) <= Count("left") /\ Len(stack) >= Count("left") - Count("right")
\* last in, first out: the pick made by event i is on the stack iff it was not popped
Matched(i) == \E j \in (i+1)..n : events[j][1] = "right"
   /\ Cardinality({l \in i..j : events[l][1] = "left"}) = Cardinality({l \in i..j : events[l][1] = "right"})
Lifo == stack = LET S == {i \in 1..n : events[i][1] = "left" /\ ~Matched(i)}
                    ord == CHOOSE f \in [1..Cardinality(S) -> S] : \A a, b \in 1..Cardinality(S) : a < b => f[a] < f[b]
                IN [p \in 1..Cardinality(S) |-> Closest(events[ord[p]][2])]
\* moves never touch the picks, clicks never touch the cross-hair
Separate == [][ (Kind \in {"move", "leave", "other"} => stack' = stack)
                /\ (Kind \in {"left", "right", "other"} => shown' = shown /\ dot' = dot) ]_vars
=============================================================================
