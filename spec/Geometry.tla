------------------------------ MODULE Geometry ------------------------------
(***************************************************************************)
(* Exact integer geometry of fnntw: squared distances, boxes, periodic     *)
(* images, and the oracle predicates that say which answers are correct.   *)
(* Points are sequences of integers ("lattice" coordinates; the harness    *)
(* maps them to floats by a power-of-two scale and an integer offset).     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Functions, TLC

Sq(x) == x * x
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
Abs(x) == IF x < 0 THEN -x ELSE x

RECURSIVE D2From(_, _, _)
D2From(p, q, i) == IF i > Len(p) THEN 0 ELSE Sq(p[i] - q[i]) + D2From(p, q, i + 1)

(* squared Euclidean distance (unrolled for the common dimensions: speed) *)
D2(p, q) ==
    CASE Len(p) = 1 -> Sq(p[1] - q[1])
      [] Len(p) = 2 -> Sq(p[1] - q[1]) + Sq(p[2] - q[2])
      [] Len(p) = 3 -> Sq(p[1] - q[1]) + Sq(p[2] - q[2]) + Sq(p[3] - q[3])
      [] OTHER -> D2From(p, q, 1)

(* squared distance from q to the closest point of the box [lo, hi] *)
Clamp(x, a, b) == IF x < a THEN a ELSE IF x > b THEN b ELSE x
BoxD2(q, lo, hi) == D2(q, [i \in 1..Len(q) |-> Clamp(q[i], lo[i], hi[i])])
InBox(p, lo, hi) == \A i \in 1..Len(p) : lo[i] <= p[i] /\ p[i] <= hi[i]

-----------------------------------------------------------------------------
(* Periodic geometry *)

(* the textbook minimum-image squared distance of points inside the box *)
MinImage1(d, len) == Min2(Sq(d), Min2(Sq(d - len), Sq(d + len)))
RECURSIVE MinImageFrom(_, _, _, _)
MinImageFrom(p, q, L, i) ==
    IF i > Len(p) THEN 0
    ELSE MinImage1(p[i] - q[i], L[i]) + MinImageFrom(p, q, L, i + 1)
MinImageD2(p, q, L) == MinImageFrom(p, q, L, 1)

(* per axis, the query has two nearer images: itself and its copy shifted
   towards the closer face *)
Shifted(q, L) ==
    [i \in 1..Len(q) |-> IF 2 * q[i] < L[i] THEN q[i] + L[i] ELSE q[i] - L[i]]
(* halfway between two faces either copy is as near: an answer may use either *)
Halfway(q, L) == {i \in 1..Len(q) : 2 * q[i] = L[i]}
ShiftedUp(q, L, up) ==
    [i \in 1..Len(q) |-> IF 2 * q[i] < L[i] \/ i \in up THEN q[i] + L[i] ELSE q[i] - L[i]]

(* number of images of p (over the 2^D nearer images of the query) whose
   squared distance is below / equal to lim.  q2 is Shifted(q, L). *)
RECURSIVE CntLess(_, _, _, _, _, _)
CntLess(p, q, q2, i, acc, lim) ==
    IF acc >= lim THEN 0
    ELSE IF i > Len(p) THEN 1
    ELSE CntLess(p, q, q2, i + 1, acc + Sq(p[i] - q[i]), lim)
       + CntLess(p, q, q2, i + 1, acc + Sq(p[i] - q2[i]), lim)

RECURSIVE CntEq(_, _, _, _, _, _)
CntEq(p, q, q2, i, acc, lim) ==
    IF acc > lim THEN 0
    ELSE IF i > Len(p) THEN (IF acc = lim THEN 1 ELSE 0)
    ELSE CntEq(p, q, q2, i + 1, acc + Sq(p[i] - q[i]), lim)
       + CntEq(p, q, q2, i + 1, acc + Sq(p[i] - q2[i]), lim)

(* the same, with the part along axis ax kept apart: images of p whose
   squared axis part is a and whose squared remaining part is b *)
RECURSIVE CntAxis(_, _, _, _, _, _, _, _, _)
CntAxis(p, q, q2, per, ax, i, a, b, lim) ==
    \* lim = <<a, b>> still to be spent is (a, b)
    IF a < 0 \/ b < 0 THEN 0
    ELSE IF i > Len(p) THEN (IF a = 0 /\ b = 0 THEN 1 ELSE 0)
    ELSE LET s1 == Sq(p[i] - q[i])
             s2 == Sq(p[i] - q2[i])
         IN  (IF i = ax THEN CntAxis(p, q, q2, per, ax, i + 1, a - s1, b, lim)
                        ELSE CntAxis(p, q, q2, per, ax, i + 1, a, b - s1, lim))
           + (IF ~per THEN 0
              ELSE IF i = ax THEN CntAxis(p, q, q2, per, ax, i + 1, a - s2, b, lim)
                             ELSE CntAxis(p, q, q2, per, ax, i + 1, a, b - s2, lim))

Plus(a, b) == a + b
SumSeq(s) == FoldLeft(Plus, 0, s)
SumOver(f, S) == FoldFunctionOnSet(Plus, 0, f, S)

-----------------------------------------------------------------------------
(* Oracles.  A tree is a record with pts (sequence of points) and box       *)
(* (<<>> when queries are not periodic, else one length per axis).          *)
(* Indices in answers are 0-based, as in the API.                           *)

Periodic(t) == t.box # <<>>

PointD2(t, p, q) == IF Periodic(t) THEN MinImageD2(p, q, t.box) ELSE D2(p, q)

NearestOK(t, q, d, i) ==
    /\ i \in 0..(Len(t.pts) - 1)
    /\ d = PointD2(t, t.pts[i + 1], q)
    /\ \A j \in 1..Len(t.pts) : PointD2(t, t.pts[j], q) >= d

(* number of result rows for k requested neighbours *)
Rows(t, k) == IF k < 0 THEN Len(t.pts) ELSE Min2(k, Len(t.pts))

Sorted(s) == \A j \in 1..(Len(s) - 1) : s[j] <= s[j + 1]

(* ds, is: distances and indices of one row *)
RowOKPlain(t, q, ds, is) ==
    LET n == Len(t.pts)
        K == Len(ds)
        last == ds[K]
    IN  /\ \A j \in 1..K : is[j] \in 0..(n - 1)
        /\ \A j \in 1..K : ds[j] = D2(t.pts[is[j] + 1], q)
        /\ Cardinality({is[j] : j \in 1..K}) = K
        /\ Cardinality({i \in 1..n : D2(t.pts[i], q) < last})
             = Cardinality({j \in 1..K : ds[j] < last})

RowOKPeriodicBy(t, q, up, ds, is) ==
    LET n == Len(t.pts)
        K == Len(ds)
        last == ds[K]
        q2 == TLCEval(ShiftedUp(q, t.box, up))
        near == {i \in 1..n : MinImageD2(t.pts[i], q, t.box) < last}
        less == [i \in near |-> CntLess(t.pts[i], q, q2, 1, 0, last)]
    IN  /\ \A j \in 1..K : is[j] \in 0..(n - 1)
        /\ \A j \in 1..K :
              Cardinality({m \in 1..K : is[m] = is[j] /\ ds[m] = ds[j]})
                <= CntEq(t.pts[is[j] + 1], q, q2, 1, 0, ds[j])
        /\ SumOver(less, near) = Cardinality({j \in 1..K : ds[j] < last})

RowOKPeriodic(t, q, ds, is) == \E up \in SUBSET Halfway(q, t.box) : RowOKPeriodicBy(t, q, up, ds, is)

RowOK(t, q, k, ds, is) ==
    /\ Len(ds) = Rows(t, k)
    /\ Len(is) = Len(ds)
    /\ Len(ds) > 0 =>
         /\ Sorted(ds)
         /\ IF Periodic(t) THEN RowOKPeriodic(t, q, ds, is)
                           ELSE RowOKPlain(t, q, ds, is)

(* axis-split row: as, bs squared axis and remaining parts; is may be <<>>
   when the configuration reports no indices *)
AxisRowOKBy(t, q, k, ax, up, as, bs, is) ==
    LET n == Len(t.pts)
        K == Len(as)
        per == Periodic(t)
        q2 == IF per THEN TLCEval(ShiftedUp(q, t.box, up)) ELSE q
        ds == TLCEval([j \in 1..K |-> as[j] + bs[j]])
        last == ds[K]
        near == {i \in 1..n : PointD2(t, t.pts[i], q) < last}
        less == [i \in near |-> IF per THEN CntLess(t.pts[i], q, q2, 1, 0, last) ELSE 1]
        \* how many images have exactly this split
        cnt(i, a, b) == CntAxis(t.pts[i], q, q2, per, ax, 1, a, b, 0)
        have(a, b) == LET c == [i \in 1..n |-> cnt(i, a, b)] IN SumSeq(c)
    IN  /\ K = Rows(t, k)
        /\ Len(bs) = K
        /\ K > 0 =>
            /\ \A j \in 1..K : as[j] >= 0 /\ bs[j] >= 0
            /\ Sorted(ds)
            /\ SumOver(less, near) = Cardinality({j \in 1..K : ds[j] < last})
            /\ IF is = <<>>
               THEN \A ab \in {<<as[j], bs[j]>> : j \in 1..K} :
                       Cardinality({m \in 1..K : as[m] = ab[1] /\ bs[m] = ab[2]})
                         <= have(ab[1], ab[2])
               ELSE /\ Len(is) = K
                    /\ \A j \in 1..K : is[j] \in 0..(n - 1)
                    /\ \A j \in 1..K :
                          Cardinality({m \in 1..K : as[m] = as[j] /\ bs[m] = bs[j] /\ is[m] = is[j]})
                            <= cnt(is[j] + 1, as[j], bs[j])
AxisRowOK(t, q, k, ax, as, bs, is) ==
    \E up \in SUBSET (IF Periodic(t) THEN Halfway(q, t.box) ELSE {}) : AxisRowOKBy(t, q, k, ax, up, as, bs, is)

-----------------------------------------------------------------------------
(* Wide squared distances: <<h, l>> stands for h * 2^26 + l, so that double  *)
(* precision is examined to its last bits (coordinates up to 2^26).          *)
B13 == 8192
B26 == 67108864
WNorm(h, l) == <<h + (l \div B26), l % B26>>
WSq(x) ==
    LET y == Abs(x)
        a == y \div B13
        b == y % B13
        c == 2 * a * b
    IN WNorm(a * a + c \div B13, b * b + (c % B13) * B13)
WAdd(u, v) == WNorm(u[1] + v[1], u[2] + v[2])
WLt(u, v) == u[1] < v[1] \/ (u[1] = v[1] /\ u[2] < v[2])
WLe(u, v) == ~WLt(v, u)
RECURSIVE WD2From(_, _, _)
WD2From(p, q, i) == IF i > Len(p) THEN <<0, 0>> ELSE WAdd(WSq(p[i] - q[i]), WD2From(p, q, i + 1))
WD2(p, q) == WD2From(p, q, 1)
WMinImage(p, q, L) ==
    WD2From([i \in 1..Len(p) |-> LET d == p[i] - q[i] IN Min2(Abs(d), Min2(Abs(d - L[i]), Abs(d + L[i])))],
            [i \in 1..Len(p) |-> 0], 1)
(* distances of all nearer images, as a sequence *)
RECURSIVE WImages(_, _, _, _, _)
WImages(p, q, q2, i, acc) ==
    IF i > Len(p) THEN <<acc>>
    ELSE WImages(p, q, q2, i + 1, WAdd(acc, WSq(p[i] - q[i])))
         \o WImages(p, q, q2, i + 1, WAdd(acc, WSq(p[i] - q2[i])))

(* answers carry <<least, greatest>>; equal when distances are not rooted *)
Fits(w, d) == WLe(d[1], w) /\ WLe(w, d[2])
Exactly(d) == d[1] = d[2]
SomeImage(t, q, up) ==
    IF Periodic(t)
    THEN LET q2 == TLCEval(ShiftedUp(q, t.box, up))
         IN TLCEval([i \in 1..Len(t.pts) |-> TLCEval(WImages(t.pts[i], q, q2, 1, <<0, 0>>))])
    ELSE TLCEval([i \in 1..Len(t.pts) |-> <<WD2(t.pts[i], q)>>])
Count(s, P(_)) == Cardinality({m \in 1..Len(s) : P(s[m])})

NearestWide(t, q, d, i) ==
    /\ i \in 0..(Len(t.pts) - 1)
    /\ LET W == TLCEval([j \in 1..Len(t.pts) |->
                   IF Periodic(t) THEN WMinImage(t.pts[j], q, t.box) ELSE WD2(t.pts[j], q)])
       IN /\ Fits(W[i + 1], d)
          /\ \A j \in 1..Len(t.pts) : WLe(W[i + 1], W[j])

RowWideBy(t, q, k, up, ds, is) ==
    LET n == Len(t.pts)
        K == Len(ds)
        im == SomeImage(t, q, up)
        last == ds[K]
    IN /\ K = Rows(t, k)
       /\ Len(is) = K
       /\ K > 0 =>
            /\ \A j \in 1..K : is[j] \in 0..(n - 1)
            /\ \A j \in 1..K :
                  Cardinality({m \in 1..K : is[m] = is[j] /\ ds[m] = ds[j]})
                    <= Count(im[is[j] + 1], LAMBDA w : Fits(w, ds[j]))
            /\ \A j \in 1..(K - 1) : WLe(ds[j][1], ds[j + 1][1])
            /\ IF Periodic(t)
               THEN LET less == SumSeq([i \in 1..n |-> Count(im[i], LAMBDA w : WLt(w, last[1]))])
                    IN IF Exactly(last) THEN less = Cardinality({j \in 1..K : WLt(ds[j][1], last[1])})
                                        ELSE less <= K
               ELSE LET W(j) == im[is[j] + 1][1]
                    IN /\ Cardinality({is[j] : j \in 1..K}) = K
                       /\ \A j \in 1..(K - 1) : WLe(W(j), W(j + 1))
                       /\ Cardinality({i \in 1..n : WLt(im[i][1], W(K))})
                            = Cardinality({j \in 1..K : WLt(W(j), W(K))})

RowWide(t, q, k, ds, is) ==
    \E up \in SUBSET (IF Periodic(t) THEN Halfway(q, t.box) ELSE {}) : RowWideBy(t, q, k, up, ds, is)

(* axis-split rows with indices, without a box *)
AxisRowWide(t, q, k, ax, as, bs, is) ==
    LET n == Len(t.pts)
        K == Len(as)
        W == TLCEval([i \in 1..n |-> WD2(t.pts[i], q)])
        part(i) == WSq(t.pts[i][ax] - q[ax])
        rest(i) == WD2([t.pts[i] EXCEPT ![ax] = q[ax]], q)
    IN /\ K = Rows(t, k) /\ Len(bs) = K /\ Len(is) = K /\ ~Periodic(t)
       /\ \A j \in 1..K : is[j] \in 0..(n - 1)
       /\ Cardinality({is[j] : j \in 1..K}) = K
       /\ \A j \in 1..K : Fits(part(is[j] + 1), as[j]) /\ Fits(rest(is[j] + 1), bs[j])
       /\ \A j \in 1..(K - 1) : WLe(W[is[j] + 1], W[is[j + 1] + 1])
       /\ K > 0 => Cardinality({i \in 1..n : WLt(W[i], W[is[K] + 1])})
                     = Cardinality({j \in 1..K : WLt(W[is[j] + 1], W[is[K] + 1])})
=============================================================================
