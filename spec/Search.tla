------------------------------- MODULE Search -------------------------------
(***************************************************************************)
(* The search with everything left out that does not matter for what it    *)
(* finds: entries with distances d, a bound b (infinite until enough       *)
(* entries are kept), spaces (sets of entries) left behind or being        *)
(* descended.  Any order, any tree, any way of giving up entries.          *)
(* KdSearch is checked to refine it (KdSearchRefine*.cfg); that nothing    *)
(* left out is nearer than anything kept (Complete) is proved for all of   *)
(* it in Prune.                                                            *)
(***************************************************************************)
EXTENDS Integers

CONSTANTS Entries, Inf
ASSUME Infinite == Inf \in Int

VARIABLES d, kept, b, front
vars == <<d, kept, b, front>>

Init == d \in [Entries -> Int] /\ kept = {} /\ b = Inf /\ front = {Entries}

(* the entries E are offered: whatever is kept is within the new bound, whatever is
   refused or given up is not below it; the bound never grows *)
Offer(E) ==
    /\ kept' \subseteq kept \cup E
    /\ b' \in Int /\ b' <= b
    /\ \A x \in kept' : d[x] <= b'
    /\ \A x \in (kept \cup E) \ kept' : d[x] >= b'

(* a space is taken apart: some of its entries are offered, the others are left in
   (at most) two parts *)
Visit ==
    \E s \in front : \E l, r \in SUBSET s :
       /\ front' = ((front \ {s}) \cup {l, r}) \ {{}}
       /\ Offer(s \ (l \cup r))
       /\ d' = d

(* a space that is at least as far as the bound (SpaceBound) is skipped *)
Skip ==
    \E s \in front : /\ \A e \in s : d[e] >= b
                     /\ front' = front \ {s}
                     /\ UNCHANGED <<d, kept, b>>

Next == Visit \/ Skip
Spec == Init /\ [][Next]_vars

Inv == /\ d \in [Entries -> Int]
       /\ kept \subseteq Entries
       /\ b \in Int
       /\ front \subseteq SUBSET Entries
       /\ \A x \in kept : d[x] <= b
       /\ \A e \in Entries \ kept : e \in UNION front \/ d[e] >= b

Complete == front = {} => \A e \in Entries \ kept, x \in kept : d[x] <= d[e]
=============================================================================
