-------------------------------- MODULE Enum --------------------------------
(***************************************************************************)
(* Enumerates situations: TLC visits every small data set (all sequences   *)
(* of 1..MaxN lattice points of [0,Side]^D, duplicates included), leaf     *)
(* size and box (0: none) as an initial state and prints it as one JSON    *)
(* line.  The driver replays each on the implementation with all queries   *)
(* of the lattice and all k, and Trace judges the answers.                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS D, MaxN, Side, Leaves, BoxSides

VARIABLE c

Cells == [1..D -> 0..Side]
Init == \E n \in 1..MaxN : \E pts \in [1..n -> Cells] : \E leaf \in Leaves : \E b \in BoxSides :
            c = [pts |-> pts, leaf |-> leaf, box |-> b]
Next == UNCHANGED c
Spec == Init /\ [][Next]_c

Emit == PrintT("@@" \o ToJson(c))
=============================================================================
