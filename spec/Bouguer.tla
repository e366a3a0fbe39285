------------------------------- MODULE Bouguer ------------------------------
(***************************************************************************)
(* Stripping a profile of free-air anomaly of the attraction of its layers *)
(* (water, sediment, crust, and the isotherms of the cooling mantle): one  *)
(* interface after the other becomes a job of Spectral, whose field is     *)
(* taken off what is left.  The anomaly after the last shallow interface   *)
(* is the mantle Bouguer anomaly, after the last isotherm its residual.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt
CONSTANTS Zero, Add(_, _), Sub(_, _), Mul(_, _),
          Amount(_, _, _), Weight(_, _),      \* of Spectral
          JobOf(_),                           \* interface: job of Spectral, with the factor of its field
          RootsOf(_)                          \* job: its phases
VARIABLES layers,     \* the interfaces, in the order in which they are stripped
          shallow,    \* how many of them lie above the mantle
          at,         \* interface being stripped
          left,       \* what is left of the anomaly
          mba,        \* what was left at the mantle
          busy, job, roots, wave, acc
bvars == <<layers, shallow, at, left, mba, busy, job, roots, wave, acc>>
SP == INSTANCE Spectral
NoJob == [nx |-> 1, ny |-> 1, src |-> <<>>, ref |-> Zero, outs |-> <<>>]
BStart(l, s, faa) ==
  /\ layers = l /\ shallow = s /\ at = 1 /\ left = faa /\ mba = (IF s = 0 THEN faa ELSE <<>>)
  /\ busy = FALSE /\ SP!SpStart(NoJob, <<>>)
BDone == at > Len(layers)
Take == /\ ~busy /\ ~BDone /\ busy' = TRUE
        /\ \E j \in {JobOf(layers[at])} : /\ job' = j /\ roots' = RootsOf(j) /\ wave' = 1
                                          /\ acc' = [i \in 1..Len(j.outs) |-> Zero]
        /\ UNCHANGED <<layers, shallow, at, left, mba>>
Sum == busy /\ SP!SpNext /\ UNCHANGED <<layers, shallow, at, left, mba, busy>>
Strip == /\ busy /\ SP!SpDone /\ busy' = FALSE /\ at' = at + 1
         /\ left' = FoldLeft(LAMBDA s, i : Append(s, Sub(left[i], Mul(acc[i], job.factor))), <<>>, [i \in 1..Len(left) |-> i])
         /\ mba' = (IF at = shallow THEN left' ELSE mba)
         /\ UNCHANGED <<layers, shallow, job, roots, wave, acc>>
BNext == Take \/ Sum \/ Strip
=============================================================================
