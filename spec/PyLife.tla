------------------------------- MODULE PyLife -------------------------------
(***************************************************************************)
(* Object lifetimes of the Python bindings.  Arrays are Python objects     *)
(* with references held by names and by trees; a tree holds one reference  *)
(* to its data array from a successful build until it is dropped itself.   *)
(***************************************************************************)
EXTENDS Integers, FiniteSets

VARIABLES named, held      \* arrays with a name; held[s]: array of tree s, or -1

LifeInit(S) == named = {} /\ held = [s \in S |-> -1]

Alive(a) == a \in named \/ \E s \in DOMAIN held : held[s] = a
MkArr(a) == a \notin named /\ ~Alive(a) /\ named' = named \cup {a} /\ UNCHANGED held
Unref(a) == a \in named /\ named' = named \ {a} /\ UNCHANGED held
\* building needs the array at hand; the old tree of the slot goes first
TakeHold(s, a) == a \in named /\ held' = [held EXCEPT ![s] = a] /\ UNCHANGED named
Release(s) == held' = [held EXCEPT ![s] = -1] /\ UNCHANGED named
LifeSame == UNCHANGED <<named, held>>
=============================================================================
