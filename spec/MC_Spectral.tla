---------------------------- MODULE MC_Spectral -----------------------------
(* Grids with exact phases (sides 1, 2, 4) and whole-number fields: with    *)
(* weight one the machine returns the field minus its mean; a uniform field *)
(* gives nothing; a mirror-symmetric field gives a mirror-symmetric result; *)
(* a weight on one pair of wavenumbers returns just that part.              *)
EXTENDS Spectral
CONSTANT Values
IAdd(a, b) == a + b
ISub(a, b) == a - b
IMul(a, b) == a * b
IAmount(j, w, v) == v
IWeight(j, w) == IF j.pass = 0 \/ w = j.pass \/ Mirror(j, w) = j.pass THEN 1 ELSE 0
Quarter == <<<<0, 1>>, <<1, 0>>, <<0, -1>>, <<-1, 0>>>>
Roots(per) == [i \in 1..per |-> Quarter[(i - 1) * (4 \div per) + 1]]
Grids == {<<1, 2>>, <<2, 1>>, <<2, 2>>, <<4, 1>>, <<1, 4>>, <<4, 2>>, <<2, 4>>}
MInit == \E g \in Grids : \E s \in [1..(g[1]*g[2]) -> IF g[1]*g[2] = 8 THEN {0, 3} ELSE Values] : \E r \in {0, s[1]} : \E pass \in {0, 1, g[1]*g[2] - 1} :
  LET j == [nx |-> g[1], ny |-> g[2], src |-> s, ref |-> r, outs |-> [i \in 1..(g[1]*g[2]) |-> i - 1], pass |-> pass]
  IN SpStart(j, Roots(Period(j)))
Total == FoldLeft(LAMBDA t, x : t + x, 0, job.src)
AllPass == SpDone /\ job.pass = 0 => \A i \in 1..Size(job) : acc[i] = Size(job) * job.src[i] - Total
Uniform == (\A i \in 1..Size(job) : job.src[i] = job.src[1]) => \A i \in 1..Size(job) : acc[i] = 0
NoMean == FoldLeft(LAMBDA t, x : t + x, 0, acc) = 0
Symmetric == (\A i \in 1..Size(job) : job.src[i] = job.src[Mirror(job, i - 1) + 1])
             => \A i \in 1..Size(job) : acc[i] = acc[Mirror(job, i - 1) + 1]
=============================================================================
