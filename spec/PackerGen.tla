------------------------------ MODULE PackerGen ------------------------------
(* Enumerates, for every width of the real types, the values around every boundary of the number of digits: *)
(* a constant high part, a pivot byte, a constant low part with a lowest byte of its own.  Printed for replay. *)
EXTENDS Integers, Sequences, TLC, Json
VARIABLES v
Edge == {0, 1, 2, 127, 128, 129, 254, 255}
Vals(w) == {[i \in 1..w |-> IF i > p THEN hi ELSE IF i = p THEN piv ELSE IF i = 1 THEN lo0 ELSE lo] :
              p \in 1..w, hi \in {0, 255}, piv \in Edge, lo \in {0, 255}, lo0 \in {0, 1, 254, 255}}
Init == \E w \in {1, 2, 4, 8} : v \in Vals(w)
Next == /\ v # <<>> /\ PrintT(<<"V", v>>) /\ v' = <<>>
=============================================================================
