------------------------------ MODULE KdBuild -------------------------------
(***************************************************************************)
(* The build as the implementation performs it: a recursion whose branches *)
(* run in parallel above par_split_level and one after the other below, in *)
(* which every finished subtree pushes its node to one shared vector under *)
(* a lock and returns the place it got.  The root is pushed last, popped   *)
(* and kept apart.                                                         *)
(*                                                                         *)
(* Variants that must fail: PushMode = "racy" (the place is read before the    *)
(* lock is taken), JoinMode = "none" (a stem does not wait for its parallel    *)
(* branch), BoundsMode = "swapped" (children get each other's bounds).         *)
(***************************************************************************)
EXTENDS KdTree, Build

Built == task[Root].pc = "done"
Exposed == SubSeq(nodes, 1, Len(nodes) - 1)
RootNode == nodes[Len(nodes)]

OwnOf(i) ==
    LET xs == {x \in NodeIds(Exposed) : i \in Own(Exposed[x + 1])}
    IN IF xs = {} THEN <<-1, -1>>
       ELSE LET x == CHOOSE y \in xs : TRUE
                nd == Exposed[x + 1]
            IN <<x, IF nd.k = "S" THEN 0 ELSE CHOOSE j \in 0..(Len(nd.pts) - 1) : nd.pts[j + 1] = i>>

(* what the user gets satisfies the contract that recorded trees are held to *)
Correct ==
    Built => /\ RootNode.k = (IF N <= leaf THEN "L" ELSE "S")
             /\ N > leaf => {RootNode.l, RootNode.r} = Tops(Exposed)
             /\ WellFormed(pts, leaf, Exposed, Len(nodes), [i \in 1..N |-> OwnOf(i - 1)],
                           IF RootNode.k = "S" THEN RootNode.pt ELSE 0)
             /\ Len(nodes) = NodeCount(N, leaf)

(* the schedule decides places only: the unfolded tree is that of the tasks *)
RECURSIVE Unfold(_), Plan(_)
Unfold(x) ==
    LET nd == nodes[x + 1]
    IN IF nd.k = "L" THEN [S |-> {nd.pts[i] : i \in 1..Len(nd.pts)}, lo |-> nd.lo, hi |-> nd.hi]
       ELSE [m |-> nd.pt, d |-> nd.dim, lo |-> nd.lo, hi |-> nd.hi, l |-> Unfold(nd.l), r |-> Unfold(nd.r)]
Plan(p) ==
    LET t == task[p]
    IN IF t.m < 0 THEN [S |-> t.S, lo |-> t.lo, hi |-> t.hi]
       ELSE [m |-> t.m, d |-> Axis0(p), lo |-> t.lo, hi |-> t.hi,
             l |-> Plan(Append(p, 0)), r |-> Plan(Append(p, 1))]
ScheduleFree == Built => Unfold(Len(nodes) - 1) = Plan(Root)

Done == \A p \in DOMAIN task : task[p].pc = "done"
Terminates == <>(Built /\ Done)
=============================================================================
