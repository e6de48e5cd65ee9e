------------------------------- MODULE Prune -------------------------------
(***************************************************************************)
(* What the search relies on for every number of points, every dimension   *)
(* and every coordinate; proved with TLAPS (no bound), where the models of *)
(* KdSearch are exhaustive within small constants.                         *)
(*                                                                         *)
(* Part 1, geometry: a space is at least as far as its clamped point       *)
(* (SpaceBound), a part of a space at least as far as the whole (PartBound *)
(* ), two images per axis are enough (NearImage), an image across a face   *)
(* is at least as far as that face (FaceBound), and below half of a box    *)
(* length a point has one image only (OneImage).                           *)
(* Part 2, search: whatever is kept, given up and skipped according to the *)
(* bound, in any order, when the spaces left are used up nothing left out  *)
(* is nearer than anything kept (Complete).                                *)
(***************************************************************************)
EXTENDS Search, NaturalsInduction, TLAPS

Sq(x) == x * x
Clamp(x, a, b) == IF x < a THEN a ELSE IF x > b THEN b ELSE x

(***************************************************************************)
(* Part 1                                                                  *)
(***************************************************************************)
LEMMA SqLe == ASSUME NEW x \in Int, NEW y \in Int, 0 <= x, x <= y PROVE Sq(x) <= Sq(y)
  <1>1. x * x <= x * y BY DEF Sq
  <1>2. x * y <= y * y
    <2>1. (y - x) * y >= 0 OBVIOUS
    <2>2. (y - x) * y = y * y - x * y OBVIOUS
    <2>3. x * y \in Int /\ y * y \in Int OBVIOUS
    <2> QED BY <2>1, <2>2, <2>3
  <1> QED BY <1>1, <1>2 DEF Sq

LEMMA SqNeg == ASSUME NEW x \in Int PROVE Sq(0 - x) = Sq(x) /\ Sq(x) \in Nat
  BY Z3 DEF Sq

LEMMA SqCmp == ASSUME NEW x \in Int, NEW y \in Int,
                      (x <= y /\ 0 - x <= y) PROVE Sq(x) <= Sq(y)
  <1>1. CASE x >= 0 BY <1>1, SqLe
  <1>2. CASE x < 0
    <2>1. 0 - x >= 0 /\ 0 - x <= y /\ 0 - x \in Int BY <1>2
    <2>2. Sq(0 - x) <= Sq(y) BY <2>1, SqLe
    <2> QED BY <2>2, SqNeg
  <1> QED BY <1>1, <1>2

(* per axis *)
LEMMA Gap == ASSUME NEW q \in Int, NEW a \in Int, NEW b \in Int, NEW p \in Int, a <= p, p <= b
             PROVE Sq(q - Clamp(q, a, b)) <= Sq(q - p)
  <1>1. CASE q < a
    <2>1. Clamp(q, a, b) = a BY <1>1 DEF Clamp
    <2>2. Sq(a - q) <= Sq(p - q) BY <1>1, SqLe
    <2>3. Sq(q - a) = Sq(a - q) /\ Sq(q - p) = Sq(p - q)
      <3>1. q - a = 0 - (a - q) /\ q - p = 0 - (p - q) /\ a - q \in Int /\ p - q \in Int OBVIOUS
      <3> QED BY <3>1, SqNeg
    <2> QED BY <2>1, <2>2, <2>3
  <1>2. CASE q > b
    <2>1. Clamp(q, a, b) = b BY <1>2 DEF Clamp
    <2>2. Sq(q - b) <= Sq(q - p) BY <1>2, SqLe
    <2> QED BY <2>1, <2>2
  <1>3. CASE a <= q /\ q <= b
    <2>1. Clamp(q, a, b) = q BY <1>3 DEF Clamp
    <2>2. Sq(q - q) = 0 /\ Sq(q - p) \in Nat
      <3>1. q - q = 0 /\ q - p \in Int OBVIOUS
      <3>2. Sq(0) = 0 BY DEF Sq
      <3> QED BY <3>1, <3>2, SqNeg
    <2> QED BY <2>1, <2>2
  <1> QED BY <1>1, <1>2, <1>3

LEMMA ClampIn == ASSUME NEW q \in Int, NEW a \in Int, NEW b \in Int, a <= b
                 PROVE Clamp(q, a, b) \in Int /\ a <= Clamp(q, a, b) /\ Clamp(q, a, b) <= b
  BY DEF Clamp

(* sums over the axes 1..n *)
SumTo(f) == CHOOSE g : g = [i \in Nat |-> IF i = 0 THEN 0 ELSE g[i - 1] + f[i]]
LEMMA SumDef == ASSUME NEW f, f \in [Nat -> Int]
                PROVE /\ SumTo(f)[0] = 0
                      /\ \A n \in Nat : SumTo(f)[n + 1] = SumTo(f)[n] + f[n + 1]
                      /\ SumTo(f) \in [Nat -> Int]
  <1> DEFINE Def(v, i) == v + f[i]
  <1> DEFINE g == SumTo(f)
  <1>1. NatInductiveDefHypothesis(g, 0, Def) BY DEF NatInductiveDefHypothesis, SumTo
  <1> HIDE DEF g
  <1>2. NatInductiveDefConclusion(g, 0, Def) BY <1>1, NatInductiveDef, Isa
  <1>3. \A v \in Int, n \in Nat \ {0} : Def(v, n) \in Int OBVIOUS
  <1>4. g \in [Nat -> Int] BY <1>2, <1>3, NatInductiveDefType, Isa
  <1>5. g = [i \in Nat |-> IF i = 0 THEN 0 ELSE g[i - 1] + f[i]] BY <1>2 DEF NatInductiveDefConclusion
  <1>6. g[0] = 0 BY <1>5
  <1>7. \A n \in Nat : g[n + 1] = g[n] + f[n + 1]
    <2> TAKE n \in Nat
    <2>1. n + 1 \in Nat /\ n + 1 # 0 /\ (n + 1) - 1 = n OBVIOUS
    <2> QED BY <1>5, <2>1
  <1> QED BY <1>4, <1>6, <1>7 DEF g

LEMMA SumMono == ASSUME NEW f, NEW g, f \in [Nat -> Int], g \in [Nat -> Int],
                        \A i \in Nat : f[i] <= g[i]
                 PROVE \A n \in Nat : SumTo(f)[n] <= SumTo(g)[n]
  <1> DEFINE P(n) == SumTo(f)[n] <= SumTo(g)[n]
  <1> DEFINE F == SumTo(f)
  <1> DEFINE G == SumTo(g)
  <1>0. /\ F[0] = 0 /\ G[0] = 0 /\ F \in [Nat -> Int] /\ G \in [Nat -> Int]
        /\ \A n \in Nat : F[n + 1] = F[n] + f[n + 1]
        /\ \A n \in Nat : G[n + 1] = G[n] + g[n + 1] BY SumDef
  <1> HIDE DEF F, G
  <1>1. P(0) BY <1>0 DEF F, G
  <1>2. ASSUME NEW n \in Nat, P(n) PROVE P(n + 1)
    <2>1. F[n] <= G[n] BY <1>2 DEF F, G
    <2>2. n + 1 \in Nat /\ f[n + 1] <= g[n + 1] OBVIOUS
    <2>3. F[n + 1] <= G[n + 1]
      <3>1. F[n] \in Int /\ G[n] \in Int /\ f[n + 1] \in Int /\ g[n + 1] \in Int BY <1>0, <2>2
      <3>2. F[n + 1] = F[n] + f[n + 1] /\ G[n + 1] = G[n] + g[n + 1] BY <1>0
      <3> QED BY <2>1, <2>2, <3>1, <3>2
    <2> QED BY <2>3 DEF F, G
  <1> HIDE DEF P
  <1>3. \A n \in Nat : P(n) BY <1>1, <1>2, NatInduction, Isa
  <1> QED BY <1>3 DEF P

Point == [Nat -> Int]          \* the axes used are 1..n
D2(p, q, n) == SumTo([i \in Nat |-> Sq(p[i] - q[i])])[n]
Within(p, lo, hi) == \A i \in Nat : lo[i] <= p[i] /\ p[i] <= hi[i]
Clamped(q, lo, hi) == [i \in Nat |-> Clamp(q[i], lo[i], hi[i])]

(* no point of a space is nearer than the clamped query *)
THEOREM SpaceBound ==
    ASSUME NEW q \in Point, NEW lo \in Point, NEW hi \in Point, NEW p \in Point, Within(p, lo, hi), NEW n \in Nat
    PROVE D2(q, Clamped(q, lo, hi), n) <= D2(q, p, n)
  <1> DEFINE f == [i \in Nat |-> Sq(q[i] - Clamped(q, lo, hi)[i])]
  <1> DEFINE g == [i \in Nat |-> Sq(q[i] - p[i])]
  <1>1. \A i \in Nat : f[i] \in Int /\ g[i] \in Int /\ f[i] <= g[i]
    <2> TAKE i \in Nat
    <2>1. q[i] \in Int /\ lo[i] \in Int /\ hi[i] \in Int /\ p[i] \in Int /\ lo[i] <= p[i] /\ p[i] <= hi[i] BY DEF Point, Within
    <2>2. Clamped(q, lo, hi)[i] = Clamp(q[i], lo[i], hi[i]) BY DEF Clamped
    <2>3. Clamp(q[i], lo[i], hi[i]) \in Int BY <2>1, ClampIn
    <2>4. Sq(q[i] - Clamp(q[i], lo[i], hi[i])) <= Sq(q[i] - p[i]) BY <2>1, Gap
    <2>5. Sq(q[i] - Clamp(q[i], lo[i], hi[i])) \in Int /\ Sq(q[i] - p[i]) \in Int BY <2>1, <2>3, SqNeg
    <2> QED BY <2>2, <2>4, <2>5
  <1>2. f \in [Nat -> Int] /\ g \in [Nat -> Int] BY <1>1
  <1> HIDE DEF f, g
  <1>3. SumTo(f)[n] <= SumTo(g)[n] BY <1>1, <1>2, SumMono
  <1> QED BY <1>3 DEF D2, f, g

(* a part of a space is at least as far as the whole: what bounds a space bounds its parts *)
THEOREM PartBound ==
    ASSUME NEW q \in Point, NEW lo \in Point, NEW hi \in Point, NEW lp \in Point, NEW hp \in Point,
           \A i \in Nat : lo[i] <= lp[i] /\ lp[i] <= hp[i] /\ hp[i] <= hi[i], NEW n \in Nat
    PROVE D2(q, Clamped(q, lo, hi), n) <= D2(q, Clamped(q, lp, hp), n)
  <1> DEFINE c == Clamped(q, lp, hp)
  <1>1. c \in Point /\ Within(c, lo, hi)
    <2>1. ASSUME NEW i \in Nat PROVE c[i] \in Int /\ lo[i] <= c[i] /\ c[i] <= hi[i]
      <3>1. q[i] \in Int /\ lo[i] \in Int /\ hi[i] \in Int /\ lp[i] \in Int /\ hp[i] \in Int BY DEF Point
      <3>2. lo[i] <= lp[i] /\ lp[i] <= hp[i] /\ hp[i] <= hi[i] OBVIOUS
      <3>3. c[i] = Clamp(q[i], lp[i], hp[i]) BY DEF Clamped
      <3>4. c[i] \in Int /\ lp[i] <= c[i] /\ c[i] <= hp[i] BY <3>1, <3>2, <3>3, ClampIn
      <3> QED BY <3>1, <3>2, <3>4
    <2>2. c = [i \in Nat |-> c[i]] BY DEF Clamped
    <2>3. c \in Point BY <2>1, <2>2 DEF Point
    <2>4. Within(c, lo, hi) BY <2>1 DEF Within
    <2> QED BY <2>3, <2>4
  <1> QED BY <1>1, SpaceBound

(* images: of the query's images along an axis, the query itself and its copy shifted
   towards the closer face are the near ones *)
Shift(q, L) == IF 2 * q < L THEN q + L ELSE q - L
THEOREM NearImage ==
    ASSUME NEW L \in Nat, NEW q \in 0..L, NEW x \in 0..L, NEW m \in Int
    PROVE \/ Sq(q - x) <= Sq(q + m * L - x)
          \/ Sq(Shift(q, L) - x) <= Sq(q + m * L - x)
  <1>0. q \in Int /\ x \in Int /\ 0 <= q /\ q <= L /\ 0 <= x /\ x <= L /\ m * L \in Int OBVIOUS
  <1>1. CASE m = 0
    <2>1. q + m * L - x = q - x BY <1>1, <1>0
    <2> QED BY <2>1, <1>0, SqNeg
  <1>2. CASE m >= 1
    <2>1. m * L >= L
      <3>1. (m - 1) * L >= 0 BY <1>2
      <3>2. (m - 1) * L = m * L - L OBVIOUS
      <3> QED BY <3>1, <3>2, <1>0
    <2>2. CASE 2 * q < L
      <3>1. Shift(q, L) = q + L BY <2>2 DEF Shift
      <3>2. 0 <= q + L - x /\ q + L - x <= q + m * L - x BY <2>1, <1>0
      <3>3. Sq(q + L - x) <= Sq(q + m * L - x) BY <3>2, <1>0, SqLe
      <3> QED BY <3>1, <3>3
    <2>3. CASE 2 * q >= L
      \* the distance to the query itself is at most q or L - q, both at most q
      <3>1. q - x <= q + m * L - x /\ 0 - (q - x) <= q + m * L - x BY <2>1, <2>3, <1>0
      <3>2. q - x \in Int /\ q + m * L - x \in Int BY <1>0
      <3> QED BY <3>1, <3>2, SqCmp
    <2> QED BY <2>2, <2>3, <1>0
  <1>3. CASE m <= -1
    <2>0. m * L <= 0 - L
      <3>1. (0 - m - 1) * L >= 0 BY <1>3
      <3>2. (0 - m - 1) * L = 0 - m * L - L OBVIOUS
      <3> QED BY <3>1, <3>2, <1>0
    <2> DEFINE y == x - q - m * L
    <2>1. y \in Int /\ Sq(q + m * L - x) = Sq(y)
      <3>1. q + m * L - x = 0 - y /\ y \in Int BY <1>0
      <3> QED BY <3>1, SqNeg
    <2>2. CASE 2 * q < L
      <3>1. q - x <= y /\ 0 - (q - x) <= y BY <2>0, <2>2, <1>0
      <3>2. Sq(q - x) <= Sq(y) BY <3>1, <2>1, <1>0, SqCmp
      <3> QED BY <3>2, <2>1
    <2>3. CASE 2 * q >= L
      <3>1. Shift(q, L) = q - L BY <2>3, <1>0 DEF Shift
      <3>2. q - L - x <= y /\ 0 - (q - L - x) <= y BY <2>0, <1>0
      <3>3. Sq(q - L - x) <= Sq(y) BY <3>2, <2>1, <1>0, SqCmp
      <3> QED BY <3>1, <3>3, <2>1
    <2> QED BY <2>2, <2>3, <1>0
  <1>4. m = 0 \/ m >= 1 \/ m <= -1 OBVIOUS
  <1> QED BY ONLY <1>1, <1>2, <1>3, <1>4

(* an image across a face is no nearer to any point than the query is to that face *)
Face(q, L) == IF 2 * q < L THEN q ELSE L - q
THEOREM FaceBound ==
    ASSUME NEW L \in Nat, NEW q \in 0..L, NEW x \in 0..L
    PROVE Sq(Face(q, L)) <= Sq(Shift(q, L) - x)
  <1>0. q \in Int /\ x \in Int /\ 0 <= q /\ q <= L /\ 0 <= x /\ x <= L OBVIOUS
  <1>1. CASE 2 * q < L
    <2>1. Face(q, L) = q /\ Shift(q, L) = q + L BY <1>1 DEF Face, Shift
    <2>2. Sq(q) <= Sq(q + L - x) BY <1>0, SqLe
    <2> QED BY <2>1, <2>2
  <1>2. CASE 2 * q >= L
    <2>1. Face(q, L) = L - q /\ Shift(q, L) = q - L BY <1>2, <1>0 DEF Face, Shift
    <2>2. Sq(L - q) <= Sq(L - q + x) BY <1>0, SqLe
    <2>3. q - L - x = 0 - (L - q + x) /\ L - q + x \in Int BY <1>0
    <2>4. Sq(q - L - x) = Sq(L - q + x) BY <2>3, SqNeg
    <2> QED BY <2>1, <2>2, <2>4
  <1> QED BY <1>1, <1>2, <1>0

(* of the two images at most one is nearer than half a box length *)
THEOREM OneImage ==
    ASSUME NEW L \in Nat, NEW q \in 0..L, NEW x \in 0..L
    PROVE 4 * Sq(q - x) >= Sq(L) \/ 4 * Sq(Shift(q, L) - x) >= Sq(L)
  <1>0. q \in Int /\ x \in Int /\ 0 <= q /\ q <= L /\ 0 <= x /\ x <= L OBVIOUS
  <1> DEFINE d == q - x
  <1> DEFINE e == Shift(q, L) - x
  <1>1. d \in Int /\ e \in Int /\ (e - d = L \/ d - e = L) BY <1>0 DEF Shift
  <1> HIDE DEF d, e
  <1>2. \A z \in Int : 4 * Sq(z) = Sq(2 * z) BY Z3 DEF Sq
  <1>3. (2 * d >= L \/ 0 - 2 * d >= L) \/ (2 * e >= L \/ 0 - 2 * e >= L) BY <1>1
  <1>4. ASSUME NEW z \in Int, 2 * z >= L \/ 0 - 2 * z >= L PROVE 4 * Sq(z) >= Sq(L)
    <2>1. CASE 2 * z >= L
      <3>1. Sq(L) <= Sq(2 * z) BY <2>1, SqLe
      <3> QED BY <3>1, <1>2
    <2>2. CASE 0 - 2 * z >= L
      <3>1. 0 - 2 * z \in Int /\ 0 - 2 * z = 0 - (2 * z) /\ 2 * z \in Int OBVIOUS
      <3>2. Sq(L) <= Sq(0 - 2 * z) BY <2>2, <3>1, SqLe
      <3>3. Sq(0 - 2 * z) = Sq(2 * z) BY <3>1, SqNeg
      <3> QED BY <3>2, <3>3, <1>2
    <2> QED BY <1>4, <2>1, <2>2
  <1>5. 4 * Sq(d) >= Sq(L) \/ 4 * Sq(e) >= Sq(L) BY <1>1, <1>3, <1>4
  <1> QED BY <1>5 DEF d, e

(***************************************************************************)
(* Part 2: every behaviour of Search                                       *)
(***************************************************************************)
LEMMA Starts == Init => Inv
  BY Infinite DEF Init, Inv

LEMMA Visits == ASSUME Inv, Visit PROVE Inv'
  <1>1. PICK s \in front : \E l, r \in SUBSET s :
          /\ front' = ((front \ {s}) \cup {l, r}) \ {{}}
          /\ Offer(s \ (l \cup r))
          /\ d' = d BY DEF Visit
  <1>2. PICK l \in SUBSET s : \E r \in SUBSET s :
          /\ front' = ((front \ {s}) \cup {l, r}) \ {{}}
          /\ Offer(s \ (l \cup r))
          /\ d' = d BY <1>1
  <1>3. PICK r \in SUBSET s :
          /\ front' = ((front \ {s}) \cup {l, r}) \ {{}}
          /\ Offer(s \ (l \cup r))
          /\ d' = d BY <1>2
  <1> DEFINE E == s \ (l \cup r)
  <1>4. s \subseteq Entries /\ E \subseteq Entries BY DEF Inv
  <1>5. /\ kept' \subseteq kept \cup E
        /\ b' \in Int /\ b' <= b
        /\ \A x \in kept' : d[x] <= b'
        /\ \A x \in (kept \cup E) \ kept' : d[x] >= b' BY <1>3 DEF Offer
  <1>6. kept' \subseteq Entries BY <1>4, <1>5 DEF Inv
  <1>7. front' \subseteq SUBSET Entries BY <1>3, <1>4 DEF Inv
  <1>8. ASSUME NEW x \in Entries \ kept' PROVE x \in UNION front' \/ d[x] >= b'
    <2>1. CASE x \in kept \cup E BY <2>1, <1>5
    <2>2. CASE x \notin kept \cup E
      <3>1. x \in UNION front \/ d[x] >= b BY <2>2 DEF Inv
      <3>2. CASE d[x] >= b
        <4>1. d[x] \in Int /\ b \in Int BY DEF Inv
        <4> QED BY <3>2, <4>1, <1>5
      <3>3. CASE x \in UNION front
        <4>1. PICK u \in front : x \in u BY <3>3
        <4>2. CASE u = s
          <5>1. x \in l \/ x \in r BY <4>1, <4>2, <2>2
          <5> QED BY <5>1, <1>3
        <4>3. CASE u # s BY <4>1, <4>3, <1>3
        <4> QED BY <4>2, <4>3
      <3> QED BY <3>1, <3>2, <3>3
    <2> QED BY <2>1, <2>2
  <1>9. d' \in [Entries -> Int] /\ d' = d BY <1>3 DEF Inv
  <1> HIDE DEF E
  <1> QED BY <1>5, <1>6, <1>7, <1>8, <1>9 DEF Inv

LEMMA Skips == ASSUME Inv, Skip PROVE Inv'
  <1>1. PICK s \in front : (\A e \in s : d[e] >= b) /\ front' = front \ {s} /\ UNCHANGED <<d, kept, b>> BY DEF Skip
  <1>2. ASSUME NEW x \in Entries \ kept' PROVE x \in UNION front' \/ d'[x] >= b'
    <2>1. x \in UNION front \/ d[x] >= b BY <1>1 DEF Inv
    <2>2. CASE x \in UNION front
      <3>1. PICK u \in front : x \in u BY <2>2
      <3> QED BY <3>1, <1>1
    <2> QED BY <2>1, <2>2, <1>1
  <1> QED BY <1>1, <1>2 DEF Inv

THEOREM Safe == Spec => []Inv
  <1>1. Inv /\ UNCHANGED vars => Inv' BY DEF Inv, vars
  <1>2. Inv /\ [Next]_vars => Inv' BY <1>1, Visits, Skips DEF Next
  <1> QED BY Starts, <1>2, PTL DEF Spec

THEOREM Ends == Spec => []Complete
  <1>1. Inv => Complete
    <2> SUFFICES ASSUME Inv, front = {}, NEW e \in Entries \ kept, NEW x \in kept PROVE d[x] <= d[e]
      BY DEF Complete
    <2>1. d[e] >= b /\ d[x] <= b /\ b \in Int /\ x \in Entries BY DEF Inv
    <2>2. d[e] \in Int /\ d[x] \in Int BY <2>1 DEF Inv
    <2> QED BY <2>1, <2>2
  <1> QED BY <1>1, Safe, PTL
=============================================================================
