-------------------------------- MODULE Api ---------------------------------
(***************************************************************************)
(* The contract of the library as a state machine over its public calls.   *)
(* A state holds the live trees (several slots); every action is one call  *)
(* with its arguments AND its outcome, enabled exactly when the outcome is *)
(* one the contract allows.  MCApi explores it exhaustively in the small   *)
(* and generates call scripts; Trace replays recorded calls through it.    *)
(***************************************************************************)
EXTENDS KdTree

CONSTANT Slots

VARIABLE trees

(* mode: how much of a distance can be known.  "exact": squared distances    *)
(* are integers below 2^31.  "wide": they are below 2^53, in two parts, and  *)
(* answers carry bounds.  "wild": they overflow or vanish in the float       *)
(* format, so that only the shape and the order of answers is promised.      *)
(* "tall" / "flat": one axis (apart) has a much coarser / finer lattice than  *)
(* the others, so that sums are rounded: only what dominates decides, but    *)
(* the two parts of an axis-split answer are exact all the same.             *)
NoTree == [live |-> FALSE, pts |-> <<>>, leaf |-> 0, box |-> <<>>, dump |-> <<>>, dumped |-> FALSE,
           mode |-> "exact", apart |-> 0]
MkTree(pts, leaf) == [NoTree EXCEPT !.live = TRUE, !.pts = pts, !.leaf = leaf]

(* evaluates b as an expression, not as a part of the action (much faster) *)
Holds(b) == b = TRUE

ApiInit == trees = [s \in Slots |-> NoTree]

Unchanged == UNCHANGED trees
Drop(s) == trees' = [trees EXCEPT ![s] = NoTree]

(* ---- building: bad says whether some component is NaN or infinite ------ *)
BuildAs(s, pts, leaf, bad, res, size, mode, apart) ==
    IF Len(pts) = 0 THEN res = "ZeroLength" /\ Drop(s)
    ELSE IF bad THEN res = "Invalid" /\ Drop(s)
    ELSE /\ res = "ok"
         /\ size >= 1
         /\ Len(pts) < BigSplit => size = NodeCount(Len(pts), leaf)
         /\ trees' = [trees EXCEPT ![s] = [MkTree(pts, leaf) EXCEPT !.mode = mode, !.apart = apart]]
Build(s, pts, leaf, bad, res, size) == BuildAs(s, pts, leaf, bad, res, size, "exact", 0)

(* ---- setting a box: bad is a set of <<axis, kind>>; consumes the tree on *)
(*      failure, as the API takes it by value                               *)
BoxCauses(t, L, bad) ==
    LET badAx == {b[1] : b \in bad}
        maxOn(i) == \E p \in 1..Len(t.pts) : t.pts[p][i] > L[i]
    IN (IF \E p \in 1..Len(t.pts), i \in 1..Len(L) : t.pts[p][i] < 0
          THEN {"Negative"} ELSE {})
       \cup (IF bad # {} THEN {"InvalidBox"} ELSE {})
       \cup (IF \/ \E i \in (1..Len(L)) \ badAx : maxOn(i)
                \/ \E b \in bad : b[2] = "-inf"
               THEN {"SmallBox"} ELSE {})

SetBox(s, L, bad, res) ==
    LET t == trees[s]
        c == BoxCauses(t, L, bad)
    IN /\ t.live
       /\ IF c = {} THEN /\ res = "ok"
                         /\ trees' = [trees EXCEPT ![s].box = L]
          ELSE res \in c /\ Drop(s)

(* ---- queries: bad says whether a component is NaN or infinite ----------- *)
(* pos / poss: coordinates reported with the answer (<<>> if none are)      *)
PosOK(t, is, poss, withPos) ==
    withPos => /\ Len(poss) = Len(is)
               /\ \A j \in 1..Len(is) : poss[j] = t.pts[is[j] + 1]

\* what decides when one axis is apart from the others
ApartKey(t, q, p) == IF t.mode = "tall" THEN Sq(p[t.apart] - q[t.apart])
                     ELSE D2(p, q) - Sq(p[t.apart] - q[t.apart])
RowApart(t, q, k, is) ==
    LET n == Len(t.pts)
        key == TLCEval([i \in 1..n |-> ApartKey(t, q, t.pts[i])])
        have == {is[j] + 1 : j \in 1..Len(is)}
    IN /\ Len(is) = Rows(t, k)
       /\ have \subseteq 1..n /\ Cardinality(have) = Len(is)
       /\ \A j \in 2..Len(is) : key[is[j - 1] + 1] <= key[is[j] + 1]
       /\ Len(is) > 0 => \A i \in (1..n) \ have : key[i] >= key[is[Len(is)] + 1]
Apart(t) == t.mode \in {"tall", "flat"}

NearestAny(t, q, d, i) ==
    CASE Apart(t) -> d >= 0 /\ RowApart(t, q, 1, <<i>>)
      [] t.mode = "wild" -> i \in 0..(Len(t.pts) - 1) /\ d >= 0
      [] t.mode = "wide" -> NearestWide(t, q, d, i)
      [] OTHER -> NearestOK(t, q, d, i)
\* ranks of the distances stand in for them
RowWild(t, k, ds, is) ==
    /\ Len(ds) = Rows(t, k) /\ Len(is) = Len(ds)
    /\ \A j \in 1..Len(ds) : ds[j] >= 0 /\ is[j] \in 0..(Len(t.pts) - 1)
    /\ Sorted(ds)
RowAny(t, q, k, ds, is) ==
    CASE Apart(t) -> RowWild(t, k, ds, is) /\ RowApart(t, q, k, is)
      [] t.mode = "wild" -> RowWild(t, k, ds, is)
      [] t.mode = "wide" -> RowWide(t, q, k, ds, is)
      [] OTHER -> RowOK(t, q, k, ds, is)
AxisRowAny(t, q, k, ax, as, bs, is) ==
    CASE Apart(t) ->
            /\ ax = t.apart
            /\ RowApart(t, q, k, is)
            /\ Len(as) = Len(is) /\ Len(bs) = Len(is)
            /\ \A j \in 1..Len(is) :
                 LET p == t.pts[is[j] + 1]
                 IN as[j] = Sq(p[ax] - q[ax]) /\ bs[j] = D2(p, q) - as[j]
      [] t.mode = "wild" ->
            /\ Len(as) = Rows(t, k) /\ Len(bs) = Len(as)
            /\ \A j \in 1..Len(as) : as[j] >= 0 /\ bs[j] >= 0
            /\ \A j \in 1..Len(is) : is[j] \in 0..(Len(t.pts) - 1)
      [] t.mode = "wide" -> AxisRowWide(t, q, k, ax, as, bs, is)
      [] OTHER -> AxisRowOK(t, q, k, ax, as, bs, is)

Query1Ans(t, q, bad, res, d, i, pos, withPos) ==
    IF bad THEN res = "Invalid"
    ELSE /\ res = "ok"
         /\ NearestAny(t, q, d, i)
         /\ PosOK(t, <<i>>, <<pos>>, withPos)

QueryKAns(t, q, k, bad, res, ds, is, poss, withPos) ==
    IF bad THEN res = "Invalid"
    ELSE /\ res = "ok"
         /\ RowAny(t, q, k, ds, is)
         /\ PosOK(t, is, poss, withPos)

Row(s, K, r) == SubSeq(s, (r - 1) * K + 1, r * K)

(* A long list made of copies of qs is recorded once: the rows of the first
   copy, the total number of entries (n), and every different row that a query
   got in another copy (alt).                                              *)
Tiled(t, qs, k, tile, n, alt) ==
    /\ \A j \in 1..Len(n) : n[j] = tile * Len(qs) * Rows(t, k)
    /\ \A j \in 1..Len(alt) :
         /\ alt[j].q \in 0..(Len(qs) - 1)
         /\ RowAny(t, qs[alt[j].q + 1], k, alt[j].d[1], alt[j].i)
AxisTiled(t, qs, k, ax, tile, n, alt) ==
    /\ \A j \in 1..Len(n) : n[j] = tile * Len(qs) * Rows(t, k)
    /\ \A j \in 1..Len(alt) :
         /\ alt[j].q \in 0..(Len(qs) - 1)
         /\ AxisRowAny(t, qs[alt[j].q + 1], k, ax + 1, alt[j].d[1], alt[j].d[2], alt[j].i)

(* one row per query, in order; all or nothing on an invalid query *)
BatchAns(t, qs, k, bad, res, ds, is) ==
    LET K == Rows(t, k)
    IN IF bad THEN res = "Invalid"
       ELSE /\ res = "ok"
            /\ Len(ds) = Len(qs) * K
            /\ Len(is) = Len(qs) * K
            /\ K > 0 => \A r \in 1..Len(qs) : RowAny(t, qs[r], k, Row(ds, K, r), Row(is, K, r))

AxisAns(t, qs, k, ax, bad, res, as, bs, is, withIdx) ==
    LET K == Rows(t, k)
        D == Len(t.pts[1])
        errs == (IF ax \notin 0..(D - 1) THEN {"InvalidAxis"} ELSE {})
                \cup (IF bad THEN {"Invalid"} ELSE {})
    IN IF errs # {} THEN res \in errs
       ELSE /\ res = "ok"
            /\ Len(as) = Len(qs) * K /\ Len(bs) = Len(qs) * K
            /\ withIdx => Len(is) = Len(qs) * K
            /\ K > 0 => \A r \in 1..Len(qs) :
                 AxisRowAny(t, qs[r], k, ax + 1, Row(as, K, r), Row(bs, K, r),
                           IF withIdx THEN Row(is, K, r) ELSE <<>>)

Query1(s, q, bad, res, d, i, pos, withPos) ==
    trees[s].live /\ Holds(Query1Ans(trees[s], q, bad, res, d, i, pos, withPos)) /\ Unchanged
QueryK(s, q, k, bad, res, ds, is, poss, withPos) ==
    trees[s].live /\ Holds(QueryKAns(trees[s], q, k, bad, res, ds, is, poss, withPos)) /\ Unchanged
Batch(s, qs, k, bad, res, ds, is) ==
    trees[s].live /\ Holds(BatchAns(trees[s], qs, k, bad, res, ds, is)) /\ Unchanged
Axis(s, qs, k, ax, bad, res, as, bs, is, withIdx) ==
    trees[s].live /\ Holds(AxisAns(trees[s], qs, k, ax, bad, res, as, bs, is, withIdx)) /\ Unchanged

(* ---- memory (see Memory): a call, or a tree's whole life, repeated n times  *)
(*      leaves nothing behind, not even one byte each time                   *)
GivesBack(n, grow) == n > 0 /\ grow < n

(* ---- looking at the tree: well-formed, and never changed by queries ----- *)
Dump(s, nodes, size, own, r, dataSame) ==
    LET t == trees[s]
    IN /\ t.live
       /\ dataSame
       /\ t.dumped => nodes = t.dump
       /\ Holds(t.dumped \/ WellFormed(t.pts, t.leaf, nodes, size, own, r))
       /\ trees' = [trees EXCEPT ![s].dump = nodes, ![s].dumped = TRUE]

DropTree(s) == trees[s].live /\ Drop(s)

(* ---- public helpers (stateless) ----------------------------------------- *)
\* squared_euclidean, squared_euclidean_axis
HelperDist(a, b, ax, d, tot, axp, rest) ==
    /\ d = D2(a, b)
    /\ axp = IF ax \in 0..(Len(a) - 1) THEN Sq(a[ax + 1] - b[ax + 1]) ELSE 0
    /\ tot = D2(a, b)
    /\ rest = D2(a, b) - axp
HelperBox(q, lo, hi, d) == d = BoxD2(q, lo, hi)
\* new_best / new_best_short: best0 < 0 stands for "infinite"
HelperBest(q, c, best0, best1, replaced) ==
    LET d == D2(q, c)
        better == best0 < 0 \/ d < best0
    IN /\ replaced = better
       /\ best1 = IF better THEN d ELSE best0

(* moms_seq: order is the permutation after the call (0-based original       *)
(* indices), nl the length of the left part, vals the axis coordinates      *)
(* inv witnesses that order is a permutation                                *)
Split(vals, order, inv, nl) ==
    LET n == Len(vals)
        m == vals[order[nl + 1] + 1]
    IN /\ Len(order) = n /\ Len(inv) = n
       /\ nl \in 0..(n - 1)
       /\ \A i \in 1..n : inv[i] \in 0..(n - 1) /\ order[inv[i] + 1] = i - 1
       /\ \A i \in 1..nl : vals[order[i] + 1] <= m
       /\ \A i \in (nl + 2)..n : vals[order[i] + 1] >= m
       /\ n < BigSplit => nl \in {n \div 2, (n - 1) \div 2}
=============================================================================
