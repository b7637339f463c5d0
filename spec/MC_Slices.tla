------------------------------ MODULE MC_Slices ------------------------------
(* TLC: Reduced/NItems (the code's algorithm) mean the same as the language *)
(* reference for every slice within the bounds; one initial state per axis *)
(* size and step, one transition per slice.                                 *)
EXTENDS Slices, TLC
CONSTANTS MaxSize, Extra
VARIABLES size, it
Opt(S) == {<<0, 0>>} \cup {<<1, x>> : x \in S}
Bound == (-(MaxSize + Extra))..(MaxSize + Extra)
Init == /\ size \in 0..MaxSize
        /\ it = FULL
Next == /\ it = FULL
        /\ \E a \in Opt((-(size + Extra))..(size + Extra)), b \in Opt((-(size + Extra))..(size + Extra)),
              c \in Opt(((-(size + Extra))..(size + Extra)) \ {0}) :
              it' = <<2>> \o a \o b \o c
        /\ UNCHANGED size
Spec == Init /\ [][Next]_<<size, it>>
Inv == SliceTheorem(it, size)
=============================================================================
