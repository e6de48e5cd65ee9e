------------------------------ MODULE KdSearch ------------------------------
(***************************************************************************)
(* The search as the implementation performs it, on every tree a build may *)
(* produce: descend to the leaf on the query's side, leaving the other     *)
(* side with its parent's point and the distance to its space on a ledger; *)
(* then work the ledger off from its end, skipping spaces that cannot hold *)
(* anything better.  k neighbours are collected in a bounded heap that is  *)
(* seeded with an infinitely far entry; which of several equally far       *)
(* entries the heap gives up is left open.  With a box, the images of the  *)
(* query that can still matter are searched after the query itself.        *)
(*                                                                         *)
(* At the end the answer must be one the contract (Geometry) allows; on    *)
(* the way nothing nearer than the current bound may be lost and no point  *)
(* may be offered twice.                                                   *)
(*                                                                         *)
(* Variants that are just as right (kept as such, because a change may      *)
(* choose them): Branch "ge", Prune "le", Early "no"/"yes", Bound "plane".  *)
(* Variants that must fail: Seed "none", Parent "stems", Prune "slack",    *)
(* Images "sides" / "far", Bound "unsquared" (an overestimate), Keep       *)
(* "fresh"; Prune "none" and Images "every" are right, but waste (Frugal). *)
(***************************************************************************)
EXTENDS Effort

CONSTANTS N, Dim, W, Leaves,
          Ks,                  \* {0}: one neighbour; else numbers of neighbours
          QPad, Box,            \* queries -QPad..W+QPad; Box 0: not periodic, else 0..Box
          Ties,                \* TRUE: every tree of the data, FALSE: one
          Seed, Parent, Prune, Early, Branch, Bound, Images, Keep,
          Counted                \* TRUE: the distances computed are counted

VARIABLES prob,   \* the problem: data, tree, query, k, leaf size, box
          todo,   \* images still to be searched
          img,    \* the image being searched
          cur,    \* the subtree being descended, or None
          ledger, \* spaces left behind
          heap,   \* best so far: sequence of <<d2, point>>, sorted
          got,    \* one neighbour: best over the images so far
          seen,   \* points offered for this image
          twice,  \* some point was offered twice
          work,   \* distances computed
          pc
vars == <<prob, todo, img, cur, ledger, heap, got, seen, twice, work, pc>>

INF == 1000000
Nil == [k |-> "nil"]
Coords == [1..Dim -> 0..W]
LexLe(a, b) == a = b \/ \E i \in 1..Dim : a[i] < b[i] /\ \A j \in 1..(i - 1) : a[j] = b[j]
Inputs == {p \in [1..N -> Coords] : \A i \in 1..(N - 1) : LexLe(p[i], p[i + 1])}

-----------------------------------------------------------------------------
(* all trees of a data set *)
Splits(p, S, a) ==
    LET all == {<<L, m>> \in (SUBSET S) \X S :
                  /\ m \notin L /\ Cardinality(L) = Cardinality(S) \div 2
                  /\ \A i \in L : p[i][a] <= p[m][a]
                  /\ \A i \in S \ (L \cup {m}) : p[i][a] >= p[m][a]}
    IN IF Ties THEN all ELSE {CHOOSE x \in all : TRUE}

RECURSIVE TreesOf(_, _, _, _, _, _)
TreesOf(p, leaf, S, lev, lo, hi) ==
    IF Cardinality(S) <= leaf THEN {[k |-> "L", S |-> S, lo |-> lo, hi |-> hi]}
    ELSE LET a == (lev % Dim) + 1
         IN UNION {LET v == p[x[2]][a]
                   IN {[k |-> "S", dim |-> a, pt |-> x[2], lo |-> lo, hi |-> hi, l |-> tl, r |-> tr] :
                         tl \in TreesOf(p, leaf, x[1], lev + 1, lo, [hi EXCEPT ![a] = v]),
                         tr \in TreesOf(p, leaf, S \ (x[1] \cup {x[2]}), lev + 1, [lo EXCEPT ![a] = v], hi)}
                   : x \in Splits(p, S, a)}

RECURSIVE Below(_)
Below(t) == IF t.k = "nil" THEN {}
            ELSE IF t.k = "L" THEN t.S ELSE {t.pt} \cup Below(t.l) \cup Below(t.r)
RECURSIVE Height(_)
Height(t) == IF t.k = "L" THEN 0 ELSE 1 + Max2(Height(t.l), Height(t.r))

MinOn(p, a) == CHOOSE x \in 0..W : (\E i \in 1..N : p[i][a] = x) /\ \A i \in 1..N : p[i][a] >= x
MaxOn(p, a) == CHOOSE x \in 0..W : (\E i \in 1..N : p[i][a] = x) /\ \A i \in 1..N : p[i][a] <= x

Tops(p, leaf) == TreesOf(p, leaf, 1..N, 0, [a \in 1..Dim |-> MinOn(p, a)], [a \in 1..Dim |-> MaxOn(p, a)])

-----------------------------------------------------------------------------
One == prob.k = 0
K == IF One THEN 1 ELSE Min2(prob.k, N)
Per == Box > 0
SeedPoint(t) == IF t.k = "S" THEN t.pt ELSE CHOOSE i \in t.S : TRUE
Seeded(t) == IF Seed = "dummy" THEN << <<INF, SeedPoint(t)>> >>
             ELSE << <<D2(prob.p[SeedPoint(t)], img), SeedPoint(t)>> >>
BestOf(h) == h[Len(h)][1]

(* offering a point: the set of heaps that may result *)
Before(x, y) == x[1] < y[1] \/ (x[1] = y[1] /\ x[2] <= y[2])
Insert(h, c) ==
    LET n == Cardinality({i \in 1..Len(h) : Before(h[i], c)})
    IN SubSeq(h, 1, n) \o <<c>> \o SubSeq(h, n + 1, Len(h))
Offer(h, i, q) ==
    LET d == D2(prob.p[i], q)
    IN IF One THEN {IF d < BestOf(h) THEN << <<d, i>> >> ELSE h}
       ELSE IF d > BestOf(h) THEN {h}
       ELSE IF Len(h) < K THEN {Insert(h, <<d, i>>)}
       ELSE {Insert(SubSeq(h, 1, j - 1) \o SubSeq(h, j + 1, Len(h)), <<d, i>>) :
               j \in {x \in 1..Len(h) : h[x][1] = BestOf(h)}}
RECURSIVE OfferAll(_, _, _)
OfferAll(H, S, q) ==
    IF S = {} THEN H
    ELSE LET i == CHOOSE x \in S : TRUE
         IN OfferAll(UNION {Offer(h, i, q) : h \in H}, S \ {i}, q)

SpaceD2(q, par, t) ==
    CASE Bound = "box" -> BoxD2(q, t.lo, t.hi)
      [] Bound = "plane" -> Sq(q[par.dim] - prob.p[par.pt][par.dim])
      [] Bound = "unsquared" -> D2(q, [i \in 1..Dim |-> Clamp(q[i], t.lo[i], t.hi[i])]) + 1

Spend(n) == work' = IF Counted THEN work + n ELSE work

Skip(d) == CASE Prune = "lt" -> ~(d < BestOf(heap))
             [] Prune = "none" -> FALSE
             [] Prune = "le" -> ~(d <= BestOf(heap))
             [] Prune = "slack" -> ~(d + 1 < BestOf(heap))

(* images of the query worth searching, given the bound after the query itself *)
SideD2(q, i) == Sq(Min2(q[i], Box - q[i]))
Nearer(q) == Shifted(q, [i \in 1..Dim |-> Box])
ImagesOf(q, best) ==
    LET masks == {m \in SUBSET (1..Dim) : m # {}}
        use == {m \in masks :
                  /\ Images = "every" \/ SumOver([i \in 1..Dim |-> SideD2(q, i)], m) < best
                  /\ Images = "sides" => Cardinality(m) = 1}
        far(i) == IF 2 * q[i] < Box THEN q[i] - Box ELSE q[i] + Box
        im(m) == [i \in 1..Dim |-> IF i \in m THEN (IF Images = "far" THEN far(i) ELSE Nearer(q)[i]) ELSE q[i]]
    IN SetToSeq({im(m) : m \in use})

-----------------------------------------------------------------------------
Init ==
    /\ \E p \in Inputs, leaf \in Leaves, k \in Ks, q \in [1..Dim -> (IF Box > 0 THEN 0..Box ELSE (0-QPad)..(W+QPad))] :
         \E t \in Tops(p, leaf) :
           /\ prob = [p |-> p, t |-> t, q |-> q, k |-> k, leaf |-> leaf]
           /\ img = q /\ cur = t
           /\ heap = (IF Seed = "dummy" THEN << <<INF, SeedPoint(t)>> >>
                      ELSE << <<D2(p[SeedPoint(t)], q), SeedPoint(t)>> >>)
    /\ todo = <<>> /\ ledger = <<>> /\ got = <<INF, 0>> /\ seen = {} /\ twice = FALSE
    /\ work = 0
    /\ pc = "self"

Descend ==
    /\ pc \in {"self", "image"} /\ cur.k = "S"
    /\ LET right == IF Branch = "gt" THEN img[cur.dim] > prob.p[cur.pt][cur.dim]
                                     ELSE img[cur.dim] >= prob.p[cur.pt][cur.dim]
           go == IF right THEN cur.r ELSE cur.l
           other == IF right THEN cur.l ELSE cur.r
           d == SpaceD2(img, cur, other)
           drop == Early = "yes" /\ ~One /\ d > BestOf(heap)
       IN /\ cur' = go
          /\ ledger' = IF drop THEN ledger ELSE Append(ledger, [t |-> other, pt |-> cur.pt, d |-> d])
    /\ Spend(1)
    /\ UNCHANGED <<prob, todo, img, heap, got, seen, twice, pc>>

Leaf ==
    /\ pc \in {"self", "image"} /\ cur.k = "L"
    /\ heap' \in OfferAll({heap}, cur.S, img)
    /\ twice' = (twice \/ cur.S \cap seen # {})
    /\ seen' = seen \cup cur.S
    /\ cur' = Nil
    /\ Spend(Cardinality(cur.S))
    /\ UNCHANGED <<prob, todo, img, ledger, got, pc>>

Pop ==
    /\ pc \in {"self", "image"} /\ cur.k = "nil" /\ ledger # <<>>
    /\ LET e == ledger[Len(ledger)]
           par == ~(Parent = "stems" /\ e.t.k = "L" /\ e.t.S = {})
       IN IF Skip(e.d) THEN UNCHANGED <<cur, heap, seen, twice, work>>
          ELSE /\ cur' = e.t
               /\ Spend(1)
               /\ heap' \in (IF par THEN Offer(heap, e.pt, img) ELSE {heap})
               /\ twice' = (twice \/ e.pt \in seen)
               /\ seen' = seen \cup {e.pt}
    /\ ledger' = SubSeq(ledger, 1, Len(ledger) - 1)
    /\ UNCHANGED <<prob, todo, img, got, pc>>

(* one image has been searched *)
Better == IF got[1] <= heap[1][1] THEN got ELSE heap[1]
EndImage ==
    /\ pc \in {"self", "image"} /\ cur.k = "nil" /\ ledger = <<>>
    /\ got' = IF One THEN Better ELSE got
    /\ LET rest == IF pc = "self" /\ Per THEN ImagesOf(prob.q, IF One THEN got'[1] ELSE BestOf(heap)) ELSE todo
       IN IF rest = <<>> THEN /\ pc' = "done"
                              /\ UNCHANGED <<todo, img, cur, heap, seen>>
          ELSE /\ pc' = "image"
               /\ img' = rest[1] /\ todo' = SubSeq(rest, 2, Len(rest))
               /\ cur' = prob.t /\ seen' = {}
               /\ heap' = IF One \/ Keep = "fresh" THEN << <<INF, SeedPoint(prob.t)>> >> ELSE heap
    /\ UNCHANGED <<prob, ledger, twice, work>>

Next == Descend \/ Leaf \/ Pop \/ EndImage
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

-----------------------------------------------------------------------------
View == [pts |-> prob.p, box |-> IF Per THEN [i \in 1..Dim |-> Box] ELSE <<>>]
Answer ==
    pc = "done" =>
      IF One THEN NearestOK(View, prob.q, got[1], got[2] - 1)
      ELSE RowOK(View, prob.q, prob.k, [j \in 1..Len(heap) |-> heap[j][1]],
                                       [j \in 1..Len(heap) |-> heap[j][2] - 1])

(* nothing nearer than the bound is lost: a point is offered, still to come,  *)
(* or not nearer than what is known                                          *)
Pending == Below(cur) \cup UNION {{ledger[i].pt} \cup Below(ledger[i].t) : i \in 1..Len(ledger)}
NothingLost ==
    pc \in {"self", "image"} =>
      \A i \in 1..N : i \in seen \/ i \in Pending \/ D2(prob.p[i], img) >= BestOf(heap)
NeverTwice == ~twice
(* no more distances than the part of the tree that can matter makes          *)
(* necessary (C21)                                                          *)
Boxed == IF Per THEN [i \in 1..Dim |-> Box] ELSE <<>>
Frugal == (pc = "done" /\ Counted) => work <= Query(prob.p, prob.t, prob.q, Max2(K, 1), Boxed)
(* without a box: a case of Search, of which Prune proves what it finds       *)
Spaces == ({Below(cur)} \cup {{ledger[i].pt} \cup Below(ledger[i].t) : i \in 1..Len(ledger)}) \ {{}}
Plain == INSTANCE Search WITH Entries <- 1..N, Inf <- INF,
                          d <- [i \in 1..N |-> D2(prob.p[i], prob.q)],
                          kept <- {heap[i][2] : i \in {j \in 1..Len(heap) : heap[j][1] < INF}},
                          b <- BestOf(heap), front <- Spaces
Refines == Plain!Spec
LedgerFits == Len(ledger) <= Height(prob.t)
Progress == <>(pc = "done")
=============================================================================
