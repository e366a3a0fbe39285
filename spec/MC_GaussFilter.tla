--------------------------- MODULE MC_GaussFilter --------------------------
EXTENDS GaussFilter
CONSTANT MaxLen
IAdd(a, b) == a + b
IMul(a, b) == a * b
MInit == \E t \in {<<1>>, <<1, 2, 1>>, <<1, 3, 5, 3, 1>>, <<2, 3, 2>>} :
         \E n \in 1..MaxLen : \E s \in [1..n -> {-1, 0, 2}] : StartWith(t, s)
=============================================================================
