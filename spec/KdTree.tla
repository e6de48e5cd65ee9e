------------------------------- MODULE KdTree -------------------------------
(***************************************************************************)
(* What a built tree must look like (C07, C08): shared by the design-level *)
(* build model (KdBuild, where it is an invariant) and by trace validation *)
(* of trees dumped from the implementation.                                *)
(*                                                                         *)
(* A dump is what Tree::nodes exposes: every node but the root.            *)
(*   stem: [k |-> "S", dim, pt, l, r, lo, hi]                               *)
(*   leaf: [k |-> "L", pts, lo, hi]                                         *)
(* dim, pt, pts, l, r are 0-based as in the implementation; node id x is   *)
(* nodes[x+1].                                                              *)
(***************************************************************************)
EXTENDS Geometry

BigSplit == 100000    \* from this size on splits use an approximate median

(* number of nodes below a split of n points (all splits halve) *)
RECURSIVE NodeCount(_, _)
NodeCount(n, leaf) ==
    IF n <= leaf THEN 1
    ELSE 1 + NodeCount(n \div 2, leaf) + NodeCount(n - 1 - (n \div 2), leaf)

NodeIds(nodes) == 0..(Len(nodes) - 1)
Stems(nodes) == {x \in NodeIds(nodes) : nodes[x + 1].k = "S"}
Referenced(nodes) ==
    {nodes[x + 1].l : x \in Stems(nodes)} \cup {nodes[x + 1].r : x \in Stems(nodes)}
Tops(nodes) == NodeIds(nodes) \ Referenced(nodes)

(* indices held by a node itself *)
Own(nd) == IF nd.k = "S" THEN {nd.pt} ELSE {nd.pts[i] : i \in 1..Len(nd.pts)}
OwnCount(nd) == IF nd.k = "S" THEN 1 ELSE Len(nd.pts)

(* Children refer to existing nodes, no node has two parents, nothing is      *)
(* unreachable: exactly the root's two children have no parent in the dump.  *)
RECURSIVE Reach(_, _)
Reach(nodes, front) ==
    IF front = {} THEN {}
    ELSE LET st == {x \in front : nodes[x + 1].k = "S"}
         IN front \cup Reach(nodes, TLCEval({nodes[x + 1].l : x \in st}
                                             \cup {nodes[x + 1].r : x \in st}))

Shape(nodes) ==
    /\ \A x \in Stems(nodes) :
          nodes[x + 1].l \in NodeIds(nodes) /\ nodes[x + 1].r \in NodeIds(nodes)
    /\ Cardinality(Referenced(nodes)) = 2 * Cardinality(Stems(nodes))
    /\ Cardinality(Tops(nodes)) = 2
    \* single parents leave only detached cycles, which are unreachable
    /\ LET T == Tops(nodes) IN Reach(nodes, T) = NodeIds(nodes)

(* Extent of a set of points: number, and least / greatest coordinates per    *)
(* axis (<<>> when empty), and whether everything checked so far was right.  *)
None == [n |-> 0, lo |-> <<>>, hi |-> <<>>, ok |-> TRUE]
AddPoint(e, p) ==
    IF e.n = 0 THEN [n |-> 1, lo |-> p, hi |-> p, ok |-> e.ok]
    ELSE [n |-> e.n + 1, ok |-> e.ok,
          lo |-> TLCEval([i \in 1..Len(p) |-> Min2(e.lo[i], p[i])]),
          hi |-> TLCEval([i \in 1..Len(p) |-> Max2(e.hi[i], p[i])])]
Join(a, b) ==
    IF a.n = 0 THEN [b EXCEPT !.ok = @ /\ a.ok]
    ELSE IF b.n = 0 THEN [a EXCEPT !.ok = @ /\ b.ok]
    ELSE [n |-> a.n + b.n, ok |-> a.ok /\ b.ok,
          lo |-> TLCEval([i \in 1..Len(a.lo) |-> Min2(a.lo[i], b.lo[i])]),
          hi |-> TLCEval([i \in 1..Len(a.lo) |-> Max2(a.hi[i], b.hi[i])])]
Within(e, lo, hi) == e.n > 0 => \A i \in 1..Len(e.lo) : lo[i] <= e.lo[i] /\ e.hi[i] <= hi[i]

(* a is left, b is right of point m along axis dim (0-based) *)
Separates(p, dim, a, b) ==
    /\ a.n > 0 => a.hi[dim + 1] <= p[dim + 1]
    /\ b.n > 0 => b.lo[dim + 1] >= p[dim + 1]

Halved(nl, nr) == nl + nr + 1 < BigSplit => Abs(nl - nr) <= 1

(* Walk the subtree of node x. *)
RECURSIVE Walk(_, _, _, _)
Walk(pts, leaf, nodes, x) ==
    LET nd == nodes[x + 1]
        D == Len(pts[1])
    IN IF nd.k = "L"
       THEN LET e == TLCEval(FoldLeft(LAMBDA acc, i : AddPoint(acc, pts[i + 1]), None, nd.pts))
            IN [e EXCEPT !.ok = /\ Len(nd.pts) <= leaf
                                /\ Within(e, nd.lo, nd.hi)]
       ELSE LET a == TLCEval(Walk(pts, leaf, nodes, nd.l))
                b == TLCEval(Walk(pts, leaf, nodes, nd.r))
                p == pts[nd.pt + 1]
                all == TLCEval(AddPoint(Join(a, b), p))
            IN [all EXCEPT !.ok = /\ @
                                  /\ nd.dim \in 0..(D - 1)
                                  /\ all.n > leaf
                                  /\ Separates(p, nd.dim, a, b)
                                  /\ Halved(a.n, b.n)
                                  /\ Within(all, nd.lo, nd.hi)]

(* Every point is held exactly once.  own is a witness: own[i+1] = <<x, j>>   *)
(* says that node x holds point i at position j (0-based; position 0 of a    *)
(* stem is its point).  As n-1 places hold n-1 points that are pairwise      *)
(* different, each is held once.  The one point without a place is the       *)
(* root's own, r.                                                            *)
At(nd, j) == IF nd.k = "S" THEN (IF j = 0 THEN nd.pt ELSE -1)
             ELSE IF j \in 0..(Len(nd.pts) - 1) THEN nd.pts[j + 1] ELSE -1
HeldOnce(n, nodes, own, r) ==
    /\ SumSeq([x \in 1..Len(nodes) |-> OwnCount(nodes[x])]) = n - 1
    /\ Len(own) = n
    /\ \A i \in 0..(n - 1) : i # r =>
          /\ own[i + 1][1] \in NodeIds(nodes)
          /\ At(nodes[own[i + 1][1] + 1], own[i + 1][2]) = i

(* the whole tree: nodes dumped from a build of pts with this leaf size; r is *)
(* the index of the root's point                                             *)
WellFormed(pts, leaf, nodes, size, own, r) ==
    LET n == Len(pts)
        D == Len(pts[1])
    IN /\ size = Len(nodes) + 1
       /\ IF n <= leaf
          THEN nodes = <<>>
          ELSE /\ Shape(nodes)
               /\ r \in 0..(n - 1)
               /\ HeldOnce(n, nodes, own, r)
               /\ LET tops == Tops(nodes)
                      w == TLCEval([x \in tops |-> Walk(pts, leaf, nodes, x)])
                  IN /\ \A x \in tops : w[x].ok
                     \* the root separates its children along some axis
                     /\ \E a \in tops, b \in tops, dim \in 0..(D - 1) :
                          /\ a # b
                          /\ Separates(pts[r + 1], dim, w[a], w[b])
                          /\ Halved(w[a].n, w[b].n)
=============================================================================
