------------------------------- MODULE Effort -------------------------------
(***************************************************************************)
(* How much of a tree a query may look at (C21).  The unit is one distance *)
(* computed: to a point, or to the space of a subtree.                     *)
(*                                                                         *)
(* A search that descends to the query's own leaf first knows, from then   *)
(* on, a bound on the answer: the k-th distance in that leaf (the radius). *)
(* It never has to enter a space that is farther away than that, and never *)
(* has to search an image of the query whose faces are farther away.  What *)
(* is left is what Search and Query count; KdSearch checks that the search *)
(* stays below it in every behaviour, Trace that the implementation does.  *)
(*                                                                         *)
(* Trees are nested records: [k |-> "L", S, lo, hi] and                    *)
(* [k |-> "S", dim, pt, l, r, lo, hi]; points and axes are 1-based.        *)
(***************************************************************************)
EXTENDS Geometry

FAR == 2000000000

(* the query's own side of a stem; both when it lies on the border *)
Homes(P, t, q) ==
    LET v == P[t.pt][t.dim]
    IN IF q[t.dim] < v THEN {t.l} ELSE IF q[t.dim] > v THEN {t.r} ELSE {t.l, t.r}

(* k-th least distance among the points of S *)
Kth(P, S, q, k) ==
    IF Cardinality(S) < k THEN FAR
    ELSE LET ids == SetToSeq(S)
             ds == TLCEval([j \in 1..Len(ids) |-> D2(P[ids[j]], q)])
         IN SortSeq(ds, LAMBDA x, y : x < y)[k]

MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x

RECURSIVE Radius(_, _, _, _)
Radius(P, t, q, k) ==
    IF t.k = "L" THEN Kth(P, t.S, q, k)
    ELSE LET H == Homes(P, t, q) IN MaxOf({Radius(P, h, q, k) : h \in H})

(* distances computed below t when nothing farther than rad is entered: a     *)
(* stem costs the distance to its other side's space and to its own point    *)
RECURSIVE Search(_, _, _, _)
Search(P, t, q, rad) ==
    IF t.k = "L" THEN Cardinality(t.S)
    ELSE LET H == Homes(P, t, q)
             cost(c) == IF c \in H \/ BoxD2(q, c.lo, c.hi) <= rad THEN Search(P, c, q, rad) ELSE 0
         IN 2 + cost(t.l) + cost(t.r)

(* images of a query: per mask of axes, shifted along these *)
Masks(D) == (SUBSET (1..D)) \ {{}}
SideD2s(q, L) == [i \in 1..Len(q) |-> Sq(Min2(q[i], L[i] - q[i]))]
ImageOf(q, L, m) == LET s == Shifted(q, L) IN [i \in 1..Len(q) |-> IF i \in m THEN s[i] ELSE q[i]]

(* one query for k neighbours; L is <<>> without a box *)
Query(P, t, q, k, L) ==
    LET rad == TLCEval(Radius(P, t, q, k))
        self == Search(P, t, q, rad)
        side == SideD2s(q, L)
        use == {m \in Masks(Len(q)) : SumOver(side, m) < rad}
        one(m) == LET im == TLCEval(ImageOf(q, L, m))
                  IN Search(P, t, im, TLCEval(Max2(rad, Radius(P, t, im, k))))
        cost == [m \in use |-> one(m)]
    IN IF L = <<>> THEN self ELSE self + SumOver(cost, use)

-----------------------------------------------------------------------------
(* The same for a dumped tree (see KdTree), whose root is not shown: its      *)
(* point r is known, and so is an axis along which it divides the two tops.  *)
(* The space of a subtree is what the splits above leave of the data's       *)
(* extent, whatever bounds the nodes themselves carry.                       *)
RECURSIVE Nested(_, _, _, _, _)
Nested(P, nodes, x, lo, hi) ==
    LET nd == nodes[x + 1]
        a == nd.dim + 1
        v == P[nd.pt + 1][a]
    IN IF nd.k = "L" THEN [k |-> "L", S |-> {nd.pts[i] + 1 : i \in 1..Len(nd.pts)}, lo |-> lo, hi |-> hi]
       ELSE [k |-> "S", dim |-> a, pt |-> nd.pt + 1, lo |-> lo, hi |-> hi,
             l |-> TLCEval(Nested(P, nodes, nd.l, lo, [hi EXCEPT ![a] = v])),
             r |-> TLCEval(Nested(P, nodes, nd.r, [lo EXCEPT ![a] = v], hi))]

RECURSIVE AllIn(_, _)
AllIn(nodes, x) ==
    LET nd == nodes[x + 1]
    IN IF nd.k = "L" THEN {nd.pts[i] + 1 : i \in 1..Len(nd.pts)}
       ELSE {nd.pt + 1} \cup AllIn(nodes, nd.l) \cup AllIn(nodes, nd.r)

Whole(P, nodes, tops, r) ==
    LET D == Len(P[1])
        least(p, q) == TLCEval([i \in 1..D |-> Min2(p[i], q[i])])
        most(p, q) == TLCEval([i \in 1..D |-> Max2(p[i], q[i])])
        lo == TLCEval(FoldLeft(least, P[1], P))
        hi == TLCEval(FoldLeft(most, P[1], P))
        in == TLCEval([x \in tops |-> AllIn(nodes, x)])
        c == P[r + 1]
        ways == {w \in tops \X tops \X (1..D) :
                   /\ w[1] # w[2]
                   /\ \A i \in in[w[1]] : P[i][w[3]] <= c[w[3]]
                   /\ \A i \in in[w[2]] : P[i][w[3]] >= c[w[3]]}
    IN IF nodes = <<>> THEN {[k |-> "L", S |-> 1..Len(P)]}
       ELSE {[k |-> "S", dim |-> w[3], pt |-> r + 1,
              l |-> Nested(P, nodes, w[1], lo, [hi EXCEPT ![w[3]] = c[w[3]]]),
              r |-> Nested(P, nodes, w[2], [lo EXCEPT ![w[3]] = c[w[3]]], hi)] : w \in ways}

(* The implementation may compute half as many distances again (of D * per     *)
(* differences each), and a little for the faces of the box and its images.  *)
WithMargin(n) == n + (n \div 2)
SpentOK(P, whole, qs, k, L, per, subs) ==
    LET D == Len(P[1])
        K == Min2(Max2(k, 1), Len(P))
        most(t) == LET c == [i \in 1..Len(qs) |-> Query(P, t, qs[i], K, L)] IN SumSeq(c)
        cap(t) == D * Max2(per, 1) * (WithMargin(most(t)) + Len(qs) * (IF L = <<>> THEN 8 ELSE 8 * (2 ^ D)))
    IN /\ subs >= 0 /\ per <= 4
       /\ whole # {} => \E t \in whole : subs <= cap(t)

(* building: comparisons, whatever the data *)
RECURSIVE Levels(_, _)
Levels(n, leaf) == IF n <= Max2(leaf, 1) THEN 1 ELSE 1 + Levels(n \div 2, leaf)
PerPointAndLevel == 24
BuiltWith(n, leaf, cmps) == cmps >= 0 /\ cmps <= 1000 + PerPointAndLevel * n * Levels(n, leaf)
=============================================================================
