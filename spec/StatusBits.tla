----------------------------- MODULE StatusBits ----------------------------
(***************************************************************************)
(* Decoding of a DGS status word: the word is consumed from its least      *)
(* significant bit, so the flag of the most significant bit comes out      *)
(* last and stands first in the list.                                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt
Flags == <<"clamp status", "GPSsync", "reserved", "feedback", "R1", "R2", "ADlock", "ack host",
           "NavMod1", "NavMod2", "dgs1_trouble", "dgs2_trouble", "GPStime", "ADsat", "nemo1", "nemo2">>
VARIABLES word, rest, bits
vars == <<word, rest, bits>>
StartWith(w) == word = w /\ rest = w /\ bits = <<>>
Next == /\ Len(bits) < Len(Flags)
        /\ bits' = <<rest % 2>> \o bits
        /\ rest' = rest \div 2
        /\ UNCHANGED word
Done == Len(bits) = Len(Flags)
Value(b) == FoldLeft(LAMBDA v, x : 2 * v + x, 0, b)
\* the word is recovered from the flags, whatever was consumed so far
P2(n) == 2 ^ n
Recovered == Done => Value(bits) = word /\ rest = 0
Prefix == word = rest * P2(Len(bits)) + Value(bits)
\* closed form: flag i of a word
Bit(w, i) == (w \div P2(Len(Flags) - i)) % 2
Closed == Done => \A i \in 1..Len(Flags) : bits[i] = Bit(word, i)
=============================================================================
