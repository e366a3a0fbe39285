---------------------------- MODULE MC_Sections -----------------------------
EXTENDS Sections
CONSTANT MaxLen
VARIABLE long        \* long[i]: the step from i to i+1 is a gap
Ordering(S, len) == SelectSeq([i \in 1..len |-> i], LAMBDA i : i \in S)
MInit == \E len \in 1..MaxLen : \E g \in [1..(len-1) -> BOOLEAN] :
           /\ long = g /\ SStart(len, Ordering({i \in 1..(len-1) : g[i]}, len - 1))
MNext == SNext /\ UNCHANGED long
IsGap(i) == i \in DOMAIN long /\ long[i]
\* kept sections are exactly the maximal gap-free runs that are long enough
Runs == {<<a, b>> \in (1..n) \X (1..n) : /\ a <= b /\ b - a + 1 >= MinLen
          /\ (a = 1 \/ IsGap(a - 1)) /\ (b = n \/ IsGap(b)) /\ \A i \in a..(b-1) : ~IsGap(i)}
Exactly == SDone => {kept[i] : i \in 1..Len(kept)} = Runs /\ Len(kept) = Len(Ordering({r[1] : r \in Runs}, n))
Ordered == \A i \in 1..(Len(kept)-1) : kept[i][2] < kept[i+1][1]
RowsRight == SDone => \A r \in 1..rows : LET l == Locate(kept, r) IN
                \E i \in 1..Len(kept) : kept[i][1] = l[1] /\ l[2] >= 0 /\ l[2] < kept[i][2] - kept[i][1] + 1 - Trim
RowsInOrder == SDone => \A r \in 1..(rows-1) : LET a == Locate(kept, r) b == Locate(kept, r+1) IN
                (a[1] = b[1] /\ b[2] = a[2] + 1) \/ (a[1] < b[1] /\ b[2] = 0)
=============================================================================
