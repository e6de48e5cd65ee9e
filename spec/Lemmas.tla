------------------------------- MODULE Lemmas -------------------------------
(***************************************************************************)
(* What the contract itself implies, checked on every small situation      *)
(* (data, query, box): the oracle used for recorded calls is satisfiable,  *)
(* fixes all distances, and has the relations between operations, sizes,   *)
(* scales, offsets and orders that the properties state.                   *)
(***************************************************************************)
EXTENDS Geometry

CONSTANTS N, Dim, W, Box, Pad

VARIABLES sit
Coords == [1..Dim -> 0..W]
Qs == [1..Dim -> (IF Box > 0 THEN 0..Box ELSE (0 - Pad)..(W + Pad))]
Init == \E p \in [1..N -> Coords], q \in Qs : sit = [p |-> p, q |-> q]
Next == UNCHANGED sit
Spec == Init /\ [][Next]_sit

BoxL == IF Box = 0 THEN <<>> ELSE [i \in 1..Dim |-> Box]
Tree(p) == [pts |-> p, box |-> BoxL]
T == Tree(sit.p)
q == sit.q
q2 == IF Box = 0 THEN q ELSE Shifted(q, BoxL)

(* all entries: a point with the distance of one of its images *)
Imgs == IF Box = 0 THEN {q} ELSE {[i \in 1..Dim |-> IF m[i] THEN q2[i] ELSE q[i]] : m \in [1..Dim -> BOOLEAN]}
Entries == {<<D2(im, sit.p[i]), i - 1>> : im \in Imgs, i \in 1..N}
Rowss(k) == {r \in [1..k -> Entries] : \A j \in 1..(k - 1) : r[j][1] <= r[j + 1][1]}
DsOf(r) == [j \in 1..Len(r) |-> r[j][1]]
IsOf(r) == [j \in 1..Len(r) |-> r[j][2]]
Answers(t, k) == {r \in Rowss(k) : RowOK(t, q, k, DsOf(r), IsOf(r))}

(* every question has an answer, and its distances are unique *)
Answered == \A k \in 1..N : LET A == Answers(T, k)
                            IN A # {} /\ \A x, y \in A : DsOf(x) = DsOf(y)
(* k beyond the data asks for all of it; nothing asked, nothing answered *)
Caps == /\ Rows(T, N + 3) = N /\ Rows(T, -1) = N /\ Rows(T, 0) = 0
        /\ RowOK(T, q, 0, <<>>, <<>>)
        /\ \A r \in Answers(T, N) : RowOK(T, q, N + 3, DsOf(r), IsOf(r))
(* one neighbour is the first of k; a prefix of an answer is an answer *)
OneIsFirst == \A e \in Entries : NearestOK(T, q, e[1], e[2]) <=> RowOK(T, q, 1, <<e[1]>>, <<e[2]>>)
PrefixAnswers == \A k \in 2..N : \A r \in Answers(T, k) :
               RowOK(T, q, k - 1, SubSeq(DsOf(r), 1, k - 1), SubSeq(IsOf(r), 1, k - 1))
(* below half of the smallest box length: distinct points at their minimum image *)
HalfBox == Box > 0 =>
    \A k \in 1..N : \A r \in Answers(T, k) :
       4 * r[k][1] < Box * Box =>
          /\ Cardinality({r[j][2] : j \in 1..k}) = k
          /\ \A j \in 1..k : r[j][1] = MinImageD2(sit.p[r[j][2] + 1], q, BoxL)
          /\ \A i \in 0..(N - 1) : i \notin {r[j][2] : j \in 1..k} =>
                MinImageD2(sit.p[i + 1], q, BoxL) >= r[k][1]
(* without a box nothing wraps, with one the distance is the textbook one *)
MinImageIsLeast == Box > 0 =>
    \A i \in 1..N : MinImageD2(sit.p[i], q, BoxL)
       = (CHOOSE d \in {D2(im, sit.p[i]) : im \in Imgs} : \A im \in Imgs : D2(im, sit.p[i]) >= d)
(* scale, offset, order of points, order of axes *)
Scaled(x, c) == [i \in 1..Dim |-> c * x[i]]
Moved(x, c) == [i \in 1..Dim |-> x[i] + c[i]]
Flip(x) == [i \in 1..Dim |-> x[Dim + 1 - i]]
MapPts(p, F(_)) == [i \in 1..N |-> F(p[i])]
Frames ==
    \A k \in 1..N : \A r \in Answers(T, k) :
      LET d == DsOf(r) i == IsOf(r)
          two == [pts |-> MapPts(sit.p, LAMBDA x : Scaled(x, 2)), box |-> IF Box = 0 THEN <<>> ELSE Scaled(BoxL, 2)]
      IN /\ RowOK(two, Scaled(q, 2), k, [j \in 1..k |-> 4 * d[j]], i)
         /\ Box = 0 => LET c == [j \in 1..Dim |-> 3 - 5 * j]
                       IN RowOK([T EXCEPT !.pts = MapPts(sit.p, LAMBDA x : Moved(x, c))], Moved(q, c), k, d, i)
         /\ RowOK([T EXCEPT !.pts = MapPts(sit.p, Flip)], Flip(q), k, d, i)
         /\ RowOK([T EXCEPT !.pts = [j \in 1..N |-> sit.p[N + 1 - j]]], q, k, d, [j \in 1..k |-> N - 1 - i[j]])
(* the axis split has the distances of the ordinary row *)
AxisSum ==
    \A ax \in 1..Dim, k \in 1..N :
      LET A == Answers(T, k)
          parts(r) == {s \in [1..k -> {<<Sq(im[ax] - sit.p[i][ax]), D2(im, sit.p[i]) - Sq(im[ax] - sit.p[i][ax]), i - 1>>
                                       : im \in Imgs, i \in 1..N}] :
                         \A j \in 1..k : s[j][1] + s[j][2] = r[j][1] /\ s[j][3] = r[j][2]}
      IN k = 1 \/ N <= 2 =>
           \A r \in A : \E s \in parts(r) :
             /\ AxisRowOK(T, q, k, ax, [j \in 1..k |-> s[j][1]], [j \in 1..k |-> s[j][2]], IsOf(r))
             /\ AxisRowOK(T, q, k, ax, [j \in 1..k |-> s[j][1]], [j \in 1..k |-> s[j][2]], <<>>)
(* the distance to a space is that to its nearest point *)
Spaces ==
    \A lo, hi \in {sit.p[i] : i \in 1..N} :
      (\A i \in 1..Dim : lo[i] <= hi[i]) =>
         LET cells == {c \in Coords : InBox(c, lo, hi)}
         IN /\ \A c \in cells : D2(q, c) >= BoxD2(q, lo, hi)
            /\ \E c \in cells : D2(q, c) = BoxD2(q, lo, hi)
=============================================================================
