----------------------------- MODULE MC_Bouguer -----------------------------
(* Whole-number profiles on exact grids, up to three interfaces in any      *)
(* order: flat interfaces attract nothing, an interface and its opposite    *)
(* cancel, and what is left is the anomaly less the sum of the fields, each *)
(* counted once, whatever the order.                                        *)
EXTENDS Bouguer
CONSTANTS Points, MaxLayers, Values
VARIABLE faa
IAdd(a, b) == a + b
ISub(a, b) == a - b
IMul(a, b) == a * b
IAmount(j, w, v) == v
IWeight(j, w) == 1
Quarter == <<<<0, 1>>, <<1, 0>>, <<0, -1>>, <<-1, 0>>>>
IRoots(j) == [i \in 1..Points |-> Quarter[(i - 1) * (4 \div Points) + 1]]
IJob(l) == [nx |-> Points, ny |-> 1, src |-> l.z, ref |-> l.z[1], outs |-> [i \in 1..Points |-> i - 1], factor |-> l.rho]
Surfaces == [1..Points -> Values]
Interfaces == [z : Surfaces, rho : {-1, 1, 2}]
MInit == \E n \in 0..MaxLayers : \E l \in [1..n -> Interfaces], s \in 0..n, f \in {[i \in 1..Points |-> 0], [i \in 1..Points |-> i * i]} :
           faa = f /\ BStart(l, s, f)
MNext == BNext /\ UNCHANGED faa
Total(v) == FoldLeft(LAMBDA t, x : t + x, 0, v)
Field(l, i) == l.rho * (Points * l.z[i] - Total(l.z))
Sums(m, i) == FoldLeft(LAMBDA t, l : t + Field(l, i), 0, SubSeq(layers, 1, m))
Stripped == ~busy => \A i \in 1..Points : left[i] = faa[i] - Sums(at - 1, i)
AtMantle == BDone => \A i \in 1..Points : mba[i] = faa[i] - Sums(shallow, i)
Flat == (\A l \in 1..Len(layers) : \A i \in 1..Points : layers[l].z[i] = layers[l].z[1]) => left = faa
Cancel == BDone /\ Len(layers) = 2 => (layers[1].z = layers[2].z /\ layers[1].rho = -layers[2].rho => left = faa)
MeanKept == ~busy => Total(left) = Total(faa)
=============================================================================
