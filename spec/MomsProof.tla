----------------------------- MODULE MomsProof ------------------------------
(***************************************************************************)
(* Moms as it is implemented, for every number of points and every choice  *)
(* of the approximate median (TLAPS proof; TLC checks the same and that it *)
(* ends for a few points, and the variants that must fail): no access is   *)
(* outside the slice, the elements stay the same ones, and the split is a  *)
(* right one, the nearest to the middle.                                   *)
(***************************************************************************)
EXTENDS Moms, FiniteSetTheorems, Functions, TLAPS

ASSUME AsIs == MaxN \in Nat /\ V \in Nat /\ Place = "middle" /\ Right = "clean" /\ Count = "exact"

Elem == Int \X Int
Pos(s, X) == {i \in 1..Len(s) : s[i][1] \in X}
Below == {x \in Int : x < m}
Same == {m}
Above == {x \in Int : x > m}

(* positions 1..lp hold smaller elements, le+1..ep equal ones and le+eq+1..rp larger ones *)
Thirds == /\ \A i \in 1..lp : a[i][1] < m
          /\ \A i \in (le + 1)..ep : a[i][1] = m
          /\ \A i \in (le + eq + 1)..rp : a[i][1] > m
Counted == /\ le = Cardinality(Pos(a, Below)) /\ eq = Cardinality(Pos(a, Same))
           /\ lp \in 0..le /\ ep \in le..n /\ rp \in (le + eq)..n
           /\ rn = n - rp /\ ln = le - lp
           /\ le \in Nat /\ eq \in Nat

Inv ==
    /\ a \in Seq(Elem) /\ m \in Int /\ Len(a) > 0
    /\ \E i \in 1..Len(a) : a[i][1] = m
    /\ \A i \in 1..Len(a) : a[i][2] \in 1..Len(a)
    /\ \A i, j \in 1..Len(a) : a[i][2] = a[j][2] => i = j
    /\ pc \in {"count", "left", "right", "place", "done"}
    /\ pc # "count" => Counted /\ Thirds
    /\ pc \in {"right", "place", "done"} => ln = 0
    /\ pc \in {"place", "done"} => rn = 0
    /\ pc = "done" => split = Clamp3(n \div 2, le, le + eq - 1)

Distinct == /\ \A i \in 1..n : a[i][2] \in 1..n
            /\ \A i, j \in 1..n : a[i][2] = a[j][2] => i = j
Contract == Inside /\ Correct /\ Distinct

-----------------------------------------------------------------------------
LEMMA Swaps == ASSUME NEW s \in Seq(Elem), NEW i \in 0..(Len(s) - 1), NEW j \in 0..(Len(s) - 1)
               PROVE /\ Swap(s, i, j) \in Seq(Elem) /\ Len(Swap(s, i, j)) = Len(s)
                     /\ \A k \in 1..Len(s) : Swap(s, i, j)[k] = IF k = j + 1 THEN s[i + 1] ELSE IF k = i + 1 THEN s[j + 1] ELSE s[k]
  BY DEF Swap

LEMMA Finite == ASSUME NEW s \in Seq(Elem), NEW X
                PROVE /\ IsFiniteSet(Pos(s, X)) /\ Cardinality(Pos(s, X)) \in Nat /\ Cardinality(Pos(s, X)) <= Len(s)
                      /\ Pos(s, X) \subseteq 1..Len(s)
  <1>1. Len(s) \in Nat OBVIOUS
  <1>2. IsFiniteSet(1..Len(s)) /\ Cardinality(1..Len(s)) = Len(s) BY <1>1, FS_Interval
  <1>3. Pos(s, X) \in SUBSET (1..Len(s)) BY DEF Pos
  <1> QED BY <1>2, <1>3, FS_Subset, FS_CardinalityType

(* exchanging two elements changes no count *)
LEMMA Keeps == ASSUME NEW s \in Seq(Elem), NEW i \in 0..(Len(s) - 1), NEW j \in 0..(Len(s) - 1), NEW X
               PROVE Cardinality(Pos(Swap(s, i, j), X)) = Cardinality(Pos(s, X))
  <1> DEFINE t == Swap(s, i, j)
             A == Pos(s, X)
             B == Pos(t, X)
             other(k) == IF k = i + 1 THEN j + 1 ELSE IF k = j + 1 THEN i + 1 ELSE k
             f == [k \in A |-> other(k)]
  <1>1. t \in Seq(Elem) /\ Len(t) = Len(s) BY Swaps
  <1>2. \A k \in 1..Len(s) : t[k] = IF k = j + 1 THEN s[i + 1] ELSE IF k = i + 1 THEN s[j + 1] ELSE s[k] BY Swaps
  <1>3. \A k \in 1..Len(s) : other(k) \in 1..Len(s) /\ t[other(k)] = s[k] /\ other(other(k)) = k /\ s[other(k)] = t[k]
    BY <1>2
  <1>4. \A k \in A : other(k) \in B BY <1>1, <1>3 DEF Pos
  <1>5. \A k \in B : other(k) \in A /\ other(other(k)) = k BY <1>1, <1>3 DEF Pos
  <1>6. \A k \in A : other(other(k)) = k BY <1>3 DEF Pos
  <1> HIDE DEF A, B, t, other
  <1>7. f \in [A -> B] BY <1>4
  <1>8. \A x, y \in A : f[x] = f[y] => x = y BY <1>6
  <1>9. \A y \in B : \E x \in A : f[x] = y BY <1>5
  <1>10. f \in Bijection(A, B)
    <2> HIDE DEF f
    <2> QED BY <1>7, <1>8, <1>9 DEF Bijection, Injection, Surjection, IsInjective
  <1>11. ExistsBijection(A, B) BY <1>10 DEF ExistsBijection
  <1>12. IsFiniteSet(A) BY Finite DEF A
  <1>13. Cardinality(B) = Cardinality(A) BY <1>11, <1>12, FS_Bijection
  <1> QED BY <1>13 DEF A, B, t

(* a block of such elements and one more outside of it are not more than there are *)
LEMMA Room == ASSUME NEW s \in Seq(Elem), NEW X, NEW lo \in Nat, NEW hi \in Nat, lo <= hi, hi <= Len(s),
                     NEW k \in 1..Len(s), s[k][1] \in X, k <= lo \/ k > hi,
                     \A i \in (lo + 1)..hi : s[i][1] \in X
              PROVE hi - lo + 1 <= Cardinality(Pos(s, X))
  <1> DEFINE B == (lo + 1)..hi
             C == B \cup {k}
  <1>1. IsFiniteSet(B) /\ Cardinality(B) = hi - lo
    <2>1. lo + 1 \in Int /\ hi \in Int OBVIOUS
    <2>2. IsFiniteSet((lo + 1)..hi) /\ Cardinality((lo + 1)..hi) = IF lo + 1 > hi THEN 0 ELSE hi - (lo + 1) + 1
      BY <2>1, FS_Interval
    <2> QED BY <2>2
  <1>2. k \notin B OBVIOUS
  <1>3. C \subseteq Pos(s, X) BY DEF Pos
  <1> HIDE DEF B
  <1>4. IsFiniteSet(C) /\ Cardinality(C) = Cardinality(B) + 1 BY <1>1, <1>2, FS_AddElement
  <1> HIDE DEF C
  <1>5. Cardinality(C) <= Cardinality(Pos(s, X)) BY <1>3, <1>4, Finite, FS_Subset
  <1> QED BY <1>1, <1>4, <1>5, Finite

(* a block as long as there are such elements holds all of them *)
LEMMA All == ASSUME NEW s \in Seq(Elem), NEW X, NEW lo \in Nat, NEW hi \in Nat, lo <= hi, hi <= Len(s),
                    \A i \in (lo + 1)..hi : s[i][1] \in X, hi - lo >= Cardinality(Pos(s, X))
             PROVE \A k \in 1..Len(s) : s[k][1] \in X => k \in (lo + 1)..hi
  <1> TAKE k \in 1..Len(s)
  <1> SUFFICES ASSUME s[k][1] \in X, k \notin (lo + 1)..hi PROVE FALSE OBVIOUS
  <1>1. k <= lo \/ k > hi OBVIOUS
  <1>2. hi - lo + 1 <= Cardinality(Pos(s, X)) BY <1>1, Room
  <1> QED BY <1>2, Finite

LEMMA Sum == ASSUME a \in Seq(Elem), m \in Int
             PROVE Cardinality(Pos(a, Below)) + Cardinality(Pos(a, Same)) + Cardinality(Pos(a, Above)) = Len(a)
  <1> DEFINE B == Pos(a, Below)
             S == Pos(a, Same)
             G == Pos(a, Above)
  <1>0. Len(a) \in Nat /\ \A i \in 1..Len(a) : a[i] \in Elem /\ a[i][1] \in Int BY DEF Elem
  <1>1. IsFiniteSet(B) /\ IsFiniteSet(S) /\ IsFiniteSet(G) BY Finite
  <1>2. B \cap S = {} /\ (B \cup S) \cap G = {} BY <1>0 DEF Pos, Below, Same, Above
  <1>3. (B \cup S) \cup G = 1..Len(a) BY <1>0 DEF Pos, Below, Same, Above
  <1> HIDE DEF B, S, G
  <1>4. IsFiniteSet(B \cup S) /\ Cardinality(B \cup S) = Cardinality(B) + Cardinality(S) - Cardinality(B \cap S) BY <1>1, FS_Union
  <1>5. Cardinality((B \cup S) \cup G) = Cardinality(B \cup S) + Cardinality(G) - Cardinality((B \cup S) \cap G) BY <1>1, <1>4, FS_Union
  <1>6. Cardinality({}) = 0 BY FS_EmptySet
  <1>7. Cardinality(1..Len(a)) = Len(a) BY <1>0, FS_Interval
  <1>8. Cardinality(B) \in Nat /\ Cardinality(S) \in Nat /\ Cardinality(G) \in Nat BY <1>1, FS_CardinalityType
  <1>9. Cardinality(B) + Cardinality(S) + Cardinality(G) = Len(a) BY <1>2, <1>3, <1>4, <1>5, <1>6, <1>7, <1>8
  <1> QED BY <1>9 DEF B, S, G

-----------------------------------------------------------------------------
LEMMA Starts == Init => Inv
  <1> SUFFICES ASSUME Init PROVE Inv OBVIOUS
  <1>1. PICK k \in 1..MaxN, f \in [1..MaxN -> 0..V] :
           a = [i \in 1..k |-> <<f[i], i>>] /\ \E i \in 1..k : m = f[i]
    BY DEF Init
  <1>2. k \in Nat /\ k > 0 /\ 1..k \subseteq 1..MaxN BY AsIs
  <1>3. \A i \in 1..k : f[i] \in Int BY <1>2, AsIs
  <1>4. a \in Seq(Elem) /\ Len(a) = k
    <2>1. \A i \in 1..k : <<f[i], i>> \in Elem BY <1>3 DEF Elem
    <2> QED BY <1>1, <1>2, <2>1
  <1>5. \A i \in 1..Len(a) : a[i][1] = f[i] /\ a[i][2] = i BY <1>1, <1>4
  <1>6. \E i \in 1..Len(a) : a[i][1] = m BY <1>1, <1>4, <1>5
  <1>7. m \in Int BY <1>1, <1>3
  <1>8. pc = "count" BY DEF Init
  <1> QED BY <1>2, <1>4, <1>5, <1>6, <1>7, <1>8 DEF Inv

(* what an exchange of two elements leaves as it was *)
LEMMA Exchange == ASSUME Inv, pc # "count", NEW i \in 0..(Len(a) - 1), NEW j \in 0..(Len(a) - 1), a' = Swap(a, i, j), m' = m
                  PROVE /\ a' \in Seq(Elem) /\ Len(a') = Len(a) /\ m' \in Int /\ Len(a') > 0
                        /\ \A k \in 1..Len(a) : a'[k] = IF k = j + 1 THEN a[i + 1] ELSE IF k = i + 1 THEN a[j + 1] ELSE a[k]
                        /\ \E k \in 1..Len(a') : a'[k][1] = m
                        /\ \A k \in 1..Len(a') : a'[k][2] \in 1..Len(a')
                        /\ \A k, l \in 1..Len(a') : a'[k][2] = a'[l][2] => k = l
                        /\ Cardinality(Pos(a', Below)) = Cardinality(Pos(a, Below))
                        /\ Cardinality(Pos(a', Same)) = Cardinality(Pos(a, Same))
  <1>1. a \in Seq(Elem) /\ Len(a) \in Nat BY DEF Inv
  <1>2. a' \in Seq(Elem) /\ Len(a') = Len(a) BY <1>1, Swaps
  <1>3. \A k \in 1..Len(a) : a'[k] = IF k = j + 1 THEN a[i + 1] ELSE IF k = i + 1 THEN a[j + 1] ELSE a[k] BY <1>1, Swaps
  <1>4. \E k \in 1..Len(a') : a'[k][1] = m
    <2>1. PICK k \in 1..Len(a) : a[k][1] = m BY DEF Inv
    <2>2. CASE k = i + 1 BY <2>1, <2>2, <1>2, <1>3
    <2>3. CASE k = j + 1 /\ k # i + 1 BY <2>1, <2>3, <1>2, <1>3
    <2>4. CASE k # i + 1 /\ k # j + 1 BY <2>1, <2>4, <1>2, <1>3
    <2> QED BY <2>2, <2>3, <2>4
  <1>5. \A k \in 1..Len(a') : a'[k][2] \in 1..Len(a') BY <1>2, <1>3 DEF Inv
  <1>6. \A k, l \in 1..Len(a') : a'[k][2] = a'[l][2] => k = l
    <2>1. \A k, l \in 1..Len(a) : a[k][2] = a[l][2] => k = l BY DEF Inv
    <2> QED BY <1>2, <1>3, <2>1
  <1>7. Cardinality(Pos(a', Below)) = Cardinality(Pos(a, Below)) /\ Cardinality(Pos(a', Same)) = Cardinality(Pos(a, Same))
    BY <1>1, Keeps
  <1> QED BY <1>1, <1>2, <1>3, <1>4, <1>5, <1>6, <1>7 DEF Inv

(* the cursors are inside the slice wherever they are used *)
LEMMA Bounds == ASSUME Inv, pc \in {"left", "right"}
                PROVE /\ le + eq + Cardinality(Pos(a, Above)) = n /\ eq > 0 /\ n \in Nat
                      /\ pc = "left" /\ ln > 0 => lp < le /\ lp \in 0..(n - 1) /\ Val(lp) \in Int
                      /\ pc = "left" /\ ln > 0 /\ Val(lp) = m => ep < le + eq
                      /\ pc = "left" /\ ln > 0 /\ Val(lp) > m => rp < n
                      /\ pc = "right" /\ rn > 0 => rp \in 0..(n - 1) /\ Val(rp) \in Int
                      /\ pc = "right" /\ rn > 0 /\ Val(rp) = m => ep < le + eq
  <1>0. a \in Seq(Elem) /\ Len(a) \in Nat /\ m \in Int /\ Counted /\ Thirds BY DEF Inv
  <1>a. \A i \in 1..Len(a) : a[i] \in Elem /\ a[i][1] \in Int BY <1>0 DEF Elem
  <1>1. le + eq + Cardinality(Pos(a, Above)) = n BY <1>0, Sum DEF Counted, n
  <1>2. eq > 0
    <2>1. PICK k \in 1..Len(a) : a[k][1] = m BY DEF Inv
    <2>2. a[k][1] \in Same BY <2>1 DEF Same
    <2>3. 0 - 0 + 1 <= Cardinality(Pos(a, Same)) BY <2>2, <1>0, Room
    <2> QED BY <2>3, <1>0 DEF Counted
  <1>b. Cardinality(Pos(a, Above)) \in Nat BY Finite, <1>0
  <1>c. ep \in Nat /\ rp \in Nat /\ lp \in Nat /\ le \in Nat /\ eq \in Nat /\ ep <= Len(a) /\ rp <= Len(a) /\ le + eq <= Len(a) /\ le <= ep /\ le + eq <= rp
    BY <1>0, <1>1, <1>b DEF Counted, n
  <1>d. Len(a) \in Nat BY <1>0
  <1>3. ASSUME pc = "left", ln > 0 PROVE lp < le /\ lp \in 0..(n - 1) /\ Val(lp) \in Int
    <2>1. lp < le BY <1>3, <1>0 DEF Counted
    <2>2. lp \in 0..(Len(a) - 1) /\ lp + 1 \in 1..Len(a) BY <2>1, <1>d, <1>c
    <2>3. a[lp + 1][1] \in Int BY <2>2, <1>a
    <2> QED BY <2>1, <2>2, <2>3 DEF Val, n
  <1>4. ASSUME NEW k \in 1..Len(a), a[k][1] = m, k <= le \/ k > ep PROVE ep < le + eq
    <2>1. a[k][1] \in Same BY <1>4 DEF Same
    <2>2. \A i \in (le + 1)..ep : a[i][1] \in Same BY <1>0 DEF Thirds, Same
    <2>3. ep - le + 1 <= Cardinality(Pos(a, Same)) BY <2>1, <2>2, <1>0, <1>c, <1>4, Room
    <2> QED BY <2>3, <1>0, <1>c DEF Counted
  <1>5. ASSUME pc = "left", ln > 0, Val(lp) = m PROVE ep < le + eq
    <2>1. lp < le /\ lp \in 0..(Len(a) - 1) BY <1>3, <1>5 DEF n
    <2>2. lp + 1 \in 1..Len(a) /\ lp + 1 <= le BY <2>1, <1>c, <1>d
    <2>3. a[lp + 1][1] = m BY <1>5 DEF Val
    <2> QED BY <2>2, <2>3, <1>4
  <1>6. ASSUME pc = "left", ln > 0, Val(lp) > m PROVE rp < n
    <2>a. lp < le /\ lp \in 0..(Len(a) - 1) BY <1>3, <1>6 DEF n
    <2>b. lp + 1 \in 1..Len(a) /\ lp + 1 <= le + eq BY <2>a, <1>c, <1>d
    <2>c. a[lp + 1][1] \in Above BY <2>b, <1>a, <1>6 DEF Val, Above
    <2>1. lp + 1 \in 1..Len(a) /\ a[lp + 1][1] \in Above /\ lp + 1 <= le + eq BY <2>b, <2>c
    <2>2. \A i \in (le + eq + 1)..rp : a[i][1] \in Above BY <1>0, <1>a, <1>c DEF Thirds, Above
    <2>3. rp - (le + eq) + 1 <= Cardinality(Pos(a, Above)) BY <2>1, <2>2, <1>0, <1>c, Room
    <2> QED BY <2>3, <1>1, <1>c, <1>b, <1>0 DEF n
  <1>7. ASSUME pc = "right", rn > 0 PROVE rp \in 0..(n - 1) /\ Val(rp) \in Int
    <2>0. rn = Len(a) - rp BY <1>0 DEF Counted, n
    <2>1. rp \in 0..(Len(a) - 1) /\ rp + 1 \in 1..Len(a) BY <2>0, <1>7, <1>d, <1>c
    <2>2. a[rp + 1][1] \in Int BY <2>1, <1>a
    <2> QED BY <2>1, <2>2 DEF Val, n
  <1>8. ASSUME pc = "right", rn > 0, Val(rp) = m PROVE ep < le + eq
    <2>1. CASE rp + 1 > ep
      <3>1. rp \in 0..(Len(a) - 1) BY <1>7, <1>8 DEF n
      <3>2. rp + 1 \in 1..Len(a) BY <3>1, <1>c, <1>d
      <3>3. a[rp + 1][1] = m BY <1>8 DEF Val
      <3> QED BY <2>1, <3>2, <3>3, <1>4
    <2>2. CASE ~(rp + 1 > ep)
      (* then the block of equal ones is longer than their number *)
      <3>1. \A i \in (le + 1)..ep : a[i][1] \in Same BY <1>0 DEF Thirds, Same
      <3>2. a[ep][1] \in Same /\ ep \in 1..Len(a) BY <3>1, <2>2, <1>2, <1>c
      <3>3. ep - 1 \in Nat /\ le <= ep - 1 /\ ep - 1 <= Len(a) BY <2>2, <1>2, <1>c, <1>d
      <3>4. \A i \in (le + 1)..(ep - 1) : a[i][1] \in Same BY <3>1, <1>c
      <3>5. (ep - 1) - le + 1 <= Cardinality(Pos(a, Same)) BY <3>2, <3>3, <3>4, <1>0, <1>c, Room
      <3> QED BY <3>5, <2>2, <1>0, <1>c DEF Counted
    <2> QED BY <2>1, <2>2
  <1> QED BY <1>0, <1>1, <1>2, <1>3, <1>5, <1>6, <1>7, <1>8 DEF n

LEMMA Steps == ASSUME Inv, [Next]_vars PROVE Inv'
  <1>0. a \in Seq(Elem) /\ Len(a) \in Nat /\ m \in Int /\ \A i \in 1..Len(a) : a[i][1] \in Int BY DEF Inv, Elem
  <1>1. CASE UNCHANGED vars BY <1>1 DEF vars, Inv, Counted, Thirds, n, Pos, Below, Same
  <1>2. CASE DoCount
    <2>1. le' = Cardinality(Pos(a, Below))
      <3>1. {i \in 1..Len(a) : a[i][1] < m} = Pos(a, Below) BY <1>0 DEF Pos, Below
      <3> QED BY <3>1, <1>2 DEF DoCount, Cnt
    <2>2. eq' = Cardinality(Pos(a, Same))
      <3>1. {i \in 1..Len(a) : a[i][1] = m} = Pos(a, Same) BY DEF Pos, Same
      <3> QED BY <3>1, <1>2, AsIs DEF DoCount, Cnt
    <2>3. le' \in Nat /\ eq' \in Nat /\ le' + eq' <= Len(a) BY <2>1, <2>2, Finite, Sum, <1>0
    <2>4. /\ lp' = 0 /\ ep' = le' /\ rp' = le' + eq' /\ ln' = le' /\ rn' = Len(a) - le' - eq' /\ pc' = "left"
          /\ a' = a /\ m' = m
      BY <1>2 DEF DoCount, n
    <2>5. Counted'
      <3>1. Len(a) \in Nat BY <1>0
      <3>2. lp' \in 0..le' /\ ep' \in le'..Len(a) /\ rp' \in (le' + eq')..Len(a) /\ rn' = Len(a) - rp' /\ ln' = le' - lp'
        BY <2>3, <2>4, <3>1
      <3>3. Below' = Below /\ Same' = Same BY <2>4 DEF Below, Same
      <3>4. le' = Cardinality(Pos(a', Below')) /\ eq' = Cardinality(Pos(a', Same')) BY <2>1, <2>2, <2>4, <3>3
      <3>5. n' = Len(a) BY <2>4 DEF n
      <3> QED BY <3>2, <3>4, <3>5, <2>3 DEF Counted
    <2>6. Thirds' BY <2>3, <2>4 DEF Thirds
    <2> QED BY <2>4, <2>5, <2>6 DEF Inv
  <1>3. CASE LeftLoop
    <2>0. pc = "left" /\ Counted /\ Thirds /\ m' = m /\ le' = le /\ eq' = eq /\ split' = split BY <1>3 DEF LeftLoop, Inv
    <2>b. /\ le \in Nat /\ eq \in Nat /\ eq > 0 /\ lp \in Nat /\ ep \in Nat /\ rp \in Nat /\ lp <= le /\ le <= ep /\ ep <= Len(a)
          /\ le + eq <= rp /\ rp <= Len(a) /\ le + eq <= Len(a) /\ ln = le - lp /\ rn = Len(a) - rp
      BY <2>0, <1>0, Bounds DEF Counted, n
    <2>1. CASE ln = 0
      <3>1. pc' = "right" /\ UNCHANGED <<a, lp, ep, rp, ln, rn>> BY <1>3, <2>1 DEF LeftLoop
      <3>2. Counted' BY <2>0, <3>1 DEF Counted, n, Below, Same
      <3>3. Thirds' BY <2>0, <3>1 DEF Thirds
      <3> QED BY <2>0, <2>1, <3>1, <3>2, <3>3 DEF Inv
    <2>2. CASE ln # 0 /\ Val(lp) = m
      <3>1. a' = Swap(a, lp, ep) /\ ep' = ep + 1 /\ UNCHANGED <<lp, rp, ln, rn, pc>> BY <1>3, <2>2 DEF LeftLoop
      <3>2. ln > 0 /\ lp < le /\ lp \in 0..(Len(a) - 1) /\ ep < le + eq BY <2>0, <2>2, <2>b, Bounds DEF n
      <3>a. Len(a) \in Nat BY <1>0
      <3>3. ep \in 0..(Len(a) - 1) BY <3>2, <2>b, <3>a
      <3>4. /\ a' \in Seq(Elem) /\ Len(a') = Len(a) /\ m' \in Int /\ Len(a') > 0
            /\ \A k \in 1..Len(a) : a'[k] = IF k = ep + 1 THEN a[lp + 1] ELSE IF k = lp + 1 THEN a[ep + 1] ELSE a[k]
            /\ \E k \in 1..Len(a') : a'[k][1] = m
            /\ \A k \in 1..Len(a') : a'[k][2] \in 1..Len(a')
            /\ \A k, l \in 1..Len(a') : a'[k][2] = a'[l][2] => k = l
            /\ Cardinality(Pos(a', Below)) = Cardinality(Pos(a, Below))
            /\ Cardinality(Pos(a', Same)) = Cardinality(Pos(a, Same))
        BY <2>0, <3>1, <3>2, <3>3, Exchange
      <3>5. Counted' BY <2>0, <2>b, <3>1, <3>2, <3>3, <3>4 DEF Counted, n, Below, Same
      <3>6. Thirds'
        <4>1. \A i \in 1..lp : a'[i] = a[i] BY <3>2, <3>4, <2>b
        <4>2. \A i \in (le + 1)..ep : a'[i] = a[i] BY <3>2, <3>3, <3>4, <2>b
        <4>3. a'[ep + 1][1] = m BY <3>3, <3>4, <2>2 DEF Val
        <4>4. \A i \in (le + eq + 1)..rp : a'[i] = a[i] BY <3>2, <3>3, <3>4, <2>b
        <4> QED BY <4>1, <4>2, <4>3, <4>4, <2>0, <2>b, <3>1 DEF Thirds
      <3> QED BY <2>0, <3>1, <3>4, <3>5, <3>6 DEF Inv
    <2>3. CASE ln # 0 /\ Val(lp) # m /\ Val(lp) > m
      <3>1. a' = Swap(a, lp, rp) /\ rp' = rp + 1 /\ rn' = rn - 1 /\ UNCHANGED <<lp, ep, ln, pc>> BY <1>3, <2>3 DEF LeftLoop
      <3>2. ln > 0 /\ lp < le /\ lp \in 0..(Len(a) - 1) /\ rp < Len(a) BY <2>0, <2>3, <2>b, Bounds DEF n
      <3>a. Len(a) \in Nat BY <1>0
      <3>3. rp \in 0..(Len(a) - 1) BY <3>2, <2>b, <3>a
      <3>4. /\ a' \in Seq(Elem) /\ Len(a') = Len(a) /\ m' \in Int /\ Len(a') > 0
            /\ \A k \in 1..Len(a) : a'[k] = IF k = rp + 1 THEN a[lp + 1] ELSE IF k = lp + 1 THEN a[rp + 1] ELSE a[k]
            /\ \E k \in 1..Len(a') : a'[k][1] = m
            /\ \A k \in 1..Len(a') : a'[k][2] \in 1..Len(a')
            /\ \A k, l \in 1..Len(a') : a'[k][2] = a'[l][2] => k = l
            /\ Cardinality(Pos(a', Below)) = Cardinality(Pos(a, Below))
            /\ Cardinality(Pos(a', Same)) = Cardinality(Pos(a, Same))
        BY <2>0, <3>1, <3>2, <3>3, Exchange
      <3>5. Counted' BY <2>0, <2>b, <3>1, <3>2, <3>3, <3>4, <1>0 DEF Counted, n, Below, Same
      <3>6. Thirds'
        <4>0. ep <= le + eq
          <5> SUFFICES ASSUME ep > le + eq PROVE FALSE BY <2>b
          <5>1. \A i \in (le + 1)..ep : a[i][1] \in Same BY <2>0 DEF Thirds, Same
          <5>2. a[ep][1] \in Same /\ ep \in 1..Len(a) BY <5>1, <2>b
          <5>3. ep - 1 \in Nat /\ le <= ep - 1 /\ ep - 1 <= Len(a) BY <2>b, <3>a
          <5>4. \A i \in (le + 1)..(ep - 1) : a[i][1] \in Same BY <5>1, <2>b
          <5>5. (ep - 1) - le + 1 <= Cardinality(Pos(a, Same)) BY <5>2, <5>3, <5>4, <1>0, <2>b, Room
          <5> QED BY <5>5, <2>0, <2>b DEF Counted
        <4>1. \A i \in 1..lp : a'[i] = a[i] BY <3>2, <3>3, <3>4, <2>b
        <4>2. \A i \in (le + 1)..ep : a'[i] = a[i] BY <3>2, <3>3, <3>4, <2>b, <4>0
        <4>3. a'[rp + 1][1] > m BY <3>3, <3>4, <2>3 DEF Val
        <4>4. \A i \in (le + eq + 1)..rp : a'[i] = a[i] BY <3>2, <3>3, <3>4, <2>b
        <4> QED BY <4>1, <4>2, <4>3, <4>4, <2>0, <2>b, <3>1 DEF Thirds
      <3> QED BY <2>0, <3>1, <3>4, <3>5, <3>6 DEF Inv
    <2>4. CASE ln # 0 /\ Val(lp) # m /\ ~(Val(lp) > m)
      <3>1. lp' = lp + 1 /\ ln' = ln - 1 /\ UNCHANGED <<a, ep, rp, rn, pc>> BY <1>3, <2>4 DEF LeftLoop
      <3>2. ln > 0 /\ lp < le /\ Val(lp) \in Int BY <2>0, <2>4, <2>b, Bounds
      <3>3. Counted' BY <2>0, <2>b, <3>1, <3>2 DEF Counted, n, Below, Same
      <3>4. a[lp + 1][1] < m BY <2>4, <3>2, <1>0 DEF Val
      <3>5. Thirds' BY <2>0, <2>b, <3>1, <3>4 DEF Thirds
      <3> QED BY <2>0, <3>1, <3>3, <3>5 DEF Inv
    <2> QED BY <2>1, <2>2, <2>3, <2>4
  <1>4. CASE RightLoop
    <2>0. pc = "right" /\ Counted /\ Thirds /\ m' = m /\ le' = le /\ eq' = eq /\ split' = split /\ lp' = lp /\ ln' = ln /\ ln = 0
      BY <1>4 DEF RightLoop, Inv
    <2>b. /\ le \in Nat /\ eq \in Nat /\ eq > 0 /\ lp = le /\ ep \in Nat /\ rp \in Nat /\ le <= ep /\ ep <= Len(a)
          /\ le + eq <= rp /\ rp <= Len(a) /\ le + eq <= Len(a) /\ rn = Len(a) - rp
      BY <2>0, <1>0, Bounds DEF Counted, n
    <2>1. CASE rn = 0
      <3>1. pc' = "place" /\ UNCHANGED <<a, ep, rp, rn>> BY <1>4, <2>1 DEF RightLoop
      <3>2. Counted' BY <2>0, <3>1 DEF Counted, n, Below, Same
      <3>3. Thirds' BY <2>0, <3>1 DEF Thirds
      <3> QED BY <2>0, <2>1, <3>1, <3>2, <3>3 DEF Inv
    <2>2. CASE rn # 0 /\ Val(rp) = m
      <3>1. a' = Swap(a, rp, ep) /\ ep' = ep + 1 /\ UNCHANGED <<rp, rn, pc>> BY <1>4, <2>2, AsIs DEF RightLoop
      <3>2. rn > 0 /\ rp \in 0..(Len(a) - 1) /\ ep < le + eq BY <2>0, <2>2, <2>b, Bounds DEF n
      <3>a. Len(a) \in Nat BY <1>0
      <3>3. ep \in 0..(Len(a) - 1) BY <3>2, <2>b, <3>a
      <3>4. /\ a' \in Seq(Elem) /\ Len(a') = Len(a) /\ m' \in Int /\ Len(a') > 0
            /\ \A k \in 1..Len(a) : a'[k] = IF k = ep + 1 THEN a[rp + 1] ELSE IF k = rp + 1 THEN a[ep + 1] ELSE a[k]
            /\ \E k \in 1..Len(a') : a'[k][1] = m
            /\ \A k \in 1..Len(a') : a'[k][2] \in 1..Len(a')
            /\ \A k, l \in 1..Len(a') : a'[k][2] = a'[l][2] => k = l
            /\ Cardinality(Pos(a', Below)) = Cardinality(Pos(a, Below))
            /\ Cardinality(Pos(a', Same)) = Cardinality(Pos(a, Same))
        BY <2>0, <3>1, <3>2, <3>3, Exchange
      <3>5. Counted' BY <2>0, <2>b, <3>1, <3>2, <3>3, <3>4 DEF Counted, n, Below, Same
      <3>6. Thirds'
        <4>1. \A i \in 1..lp : a'[i] = a[i] BY <3>2, <3>3, <3>4, <2>b
        <4>2. \A i \in (le + 1)..ep : a'[i] = a[i] BY <3>2, <3>3, <3>4, <2>b
        <4>3. a'[ep + 1][1] = m BY <3>3, <3>4, <2>2 DEF Val
        <4>4. \A i \in (le + eq + 1)..rp : a'[i] = a[i] BY <3>2, <3>3, <3>4, <2>b
        <4> QED BY <4>1, <4>2, <4>3, <4>4, <2>0, <2>b, <3>1 DEF Thirds
      <3> QED BY <2>0, <3>1, <3>4, <3>5, <3>6 DEF Inv
    <2>3. CASE rn # 0 /\ Val(rp) # m
      <3>1. rp' = rp + 1 /\ rn' = rn - 1 /\ UNCHANGED <<a, ep, pc>> BY <1>4, <2>3, AsIs DEF RightLoop
      <3>2. rn > 0 /\ rp \in 0..(Len(a) - 1) /\ Val(rp) \in Int BY <2>0, <2>3, <2>b, Bounds DEF n
      <3>3. Counted' BY <2>0, <2>b, <3>1, <3>2, <1>0 DEF Counted, n, Below, Same
      <3>4. a[rp + 1][1] > m
        <4>1. \A i \in (0 + 1)..le : a[i][1] \in Below BY <2>0, <2>b, <1>0 DEF Thirds, Below
        <4>2. le - 0 >= Cardinality(Pos(a, Below)) BY <2>0, <2>b DEF Counted
        <4>3. \A k \in 1..Len(a) : a[k][1] \in Below => k \in (0 + 1)..le BY <4>1, <4>2, <1>0, <2>b, All
        <4>a. Len(a) \in Nat BY <1>0
        <4>b. rp + 1 \in 1..Len(a) /\ ~(rp + 1 <= le) BY <3>2, <2>b, <4>a
        <4>4. a[rp + 1][1] \notin Below BY <4>3, <4>b, <2>b
        <4> QED BY <4>4, <2>3, <3>2, <1>0 DEF Below, Val
      <3>5. Thirds' BY <2>0, <2>b, <3>1, <3>4 DEF Thirds
      <3> QED BY <2>0, <3>1, <3>3, <3>5 DEF Inv
    <2> QED BY <2>1, <2>2, <2>3
  <1>5. CASE DoPlace
    <2>1. pc = "place" /\ pc' = "done" /\ UNCHANGED <<a, m, le, eq, lp, ep, rp, ln, rn>>
          /\ split' = Clamp3(n \div 2, le, le + eq - 1)
      BY <1>5, AsIs DEF DoPlace
    <2>2. Counted' /\ Thirds' BY <2>1 DEF Inv, Counted, Thirds, n, Below, Same
    <2>3. split' = Clamp3(n \div 2, le, le + eq - 1)' BY <2>1 DEF Clamp3, n
    <2> QED BY <2>1, <2>2, <2>3 DEF Inv
  <1> QED BY <1>1, <1>2, <1>3, <1>4, <1>5 DEF Next

LEMMA Holds == ASSUME Inv PROVE Contract
  <1>0. a \in Seq(Elem) /\ Len(a) \in Nat /\ m \in Int /\ \A i \in 1..Len(a) : a[i][1] \in Int BY DEF Inv, Elem
  <1>1. Distinct BY DEF Inv, Distinct, n
  <1>2. Inside
    <2>1. ASSUME pc = "left", ln > 0 PROVE lp \in 0..(n - 1) /\ (Val(lp) = m => ep \in 0..(n - 1)) /\ (Val(lp) > m => rp \in 0..(n - 1))
      <3>1. Counted BY <2>1 DEF Inv
      <3> QED BY <2>1, <3>1, Bounds, <1>0, Finite DEF Counted, n
    <2>2. ASSUME pc = "right", rn > 0 PROVE rp \in 0..(n - 1) /\ (Val(rp) = m => ep \in 0..(n - 1))
      <3>1. Counted BY <2>2 DEF Inv
      <3> QED BY <2>2, <3>1, Bounds, <1>0, Finite DEF Counted, n
    <2> QED BY <2>1, <2>2 DEF Inside
  <1>3. Correct
    <2> SUFFICES ASSUME pc = "done"
                 PROVE /\ Right3(split) /\ Val(split) = m /\ split < n /\ n - 1 - split < n
                       /\ \A s \in 0..(n - 1) : Val(s) = m => Dist(split) <= Dist(s)
      BY DEF Correct
    <2>1. Counted /\ Thirds /\ ln = 0 /\ rn = 0 /\ split = Clamp3(n \div 2, le, le + eq - 1) BY DEF Inv
    <2>2. le + eq + Cardinality(Pos(a, Above)) = Len(a) /\ Cardinality(Pos(a, Above)) \in Nat BY <2>1, <1>0, Sum, Finite DEF Counted
    <2>3. eq > 0
      <3>1. PICK k \in 1..Len(a) : a[k][1] = m BY DEF Inv
      <3>2. a[k][1] \in Same BY <3>1 DEF Same
      <3>3. 0 - 0 + 1 <= Cardinality(Pos(a, Same)) BY <3>2, <1>0, Room
      <3> QED BY <3>3, <2>1 DEF Counted
    <2>4. le \in Nat /\ eq \in Nat /\ lp = le /\ rp = Len(a) /\ le + eq <= Len(a) BY <2>1, <2>2, <1>0 DEF Counted, n
    <2>5. \A k \in 1..Len(a) : a[k][1] < m => k <= le
      <3>1. \A i \in (0 + 1)..le : a[i][1] \in Below BY <2>1, <2>4, <1>0 DEF Thirds, Below
      <3>2. le - 0 >= Cardinality(Pos(a, Below)) BY <2>1, <2>4 DEF Counted
      <3>3. \A k \in 1..Len(a) : a[k][1] \in Below => k \in (0 + 1)..le
        <4>1. le <= Len(a) /\ 0 <= le /\ 0 \in Nat BY <2>4, <1>0
        <4> QED BY <3>1, <3>2, <1>0, <2>4, <4>1, All
      <3> QED BY <3>3, <1>0 DEF Below
    <2>6. \A k \in 1..Len(a) : a[k][1] > m => k > le + eq
      <3>1. \A i \in ((le + eq) + 1)..Len(a) : a[i][1] \in Above BY <2>1, <2>4, <1>0 DEF Thirds, Above
      <3>2. Len(a) - (le + eq) >= Cardinality(Pos(a, Above)) BY <2>2, <2>4, <1>0
      <3>3. \A k \in 1..Len(a) : a[k][1] \in Above => k \in ((le + eq) + 1)..Len(a) BY <3>1, <3>2, <1>0, <2>4, All
      <3> QED BY <3>3, <1>0, <2>4 DEF Above
    <2>7. \A k \in (le + 1)..(le + eq) : a[k][1] = m BY <2>4, <2>5, <2>6, <1>0
    <2>8. \A k \in 1..le : a[k][1] < m BY <2>1, <2>4 DEF Thirds
    <2>9. \A k \in (le + eq + 1)..Len(a) : a[k][1] > m BY <2>1, <2>4 DEF Thirds
    <2>10. split \in le..(le + eq - 1) /\ split \in Int
      BY <2>1, <2>3, <2>4, <1>0 DEF Clamp3, n
    <2>11. split \in 0..(n - 1) /\ Val(split) = m
      <3>1. Len(a) \in Nat BY <1>0
      <3>2. split \in 0..(Len(a) - 1) /\ split + 1 \in (le + 1)..(le + eq) BY <2>10, <2>4, <3>1
      <3>3. a[split + 1][1] = m BY <3>2, <2>7
      <3> QED BY <3>2, <3>3 DEF Val, n
    <2>12. Right3(split)
      <3>1. ASSUME NEW i \in 0..(split - 1) PROVE Val(i) <= Val(split)
        <4>1. i + 1 \in 1..Len(a) /\ i + 1 <= le + eq BY <2>10, <2>4, <1>0
        <4>2. a[i + 1][1] <= m BY <4>1, <2>6, <1>0, <2>4
        <4> QED BY <4>2, <2>11 DEF Val
      <3>2. ASSUME NEW i \in (split + 1)..(n - 1) PROVE Val(i) >= Val(split)
        <4>1. i + 1 \in 1..Len(a) /\ i + 1 > le BY <2>10, <2>4, <1>0 DEF n
        <4>2. a[i + 1][1] >= m BY <4>1, <2>5, <1>0, <2>4
        <4> QED BY <4>2, <2>11 DEF Val
      <3> QED BY <3>1, <3>2, <2>11 DEF Right3
    <2>13. ASSUME NEW s \in 0..(n - 1), Val(s) = m PROVE Dist(split) <= Dist(s)
      <3>1. s + 1 \in 1..Len(a) /\ a[s + 1][1] = m BY <2>13, <1>0 DEF Val, n
      <3>2. s + 1 > le /\ s + 1 <= le + eq
        <4>1. ~(s + 1 <= le) BY <3>1, <2>8, <1>0
        <4>2. ~(s + 1 > le + eq) BY <3>1, <2>9, <1>0, <2>4
        <4> QED BY <4>1, <4>2, <2>4, <3>1
      <3>3. n \div 2 \in Int BY <1>0 DEF n
      <3> DEFINE h == n \div 2
      <3>4. split = Clamp3(h, le, le + eq - 1) /\ h \in Int /\ Dist(split) = (IF split < h THEN h - split ELSE split - h)
            /\ Dist(s) = (IF s < h THEN h - s ELSE s - h)
        BY <2>1, <3>3 DEF Dist
      <3> HIDE DEF h
      <3> QED BY <3>2, <3>4, <2>4, <2>10 DEF Clamp3
    <2>14. split < n /\ n - 1 - split < n BY <2>11, <1>0 DEF n
    <2> QED BY <2>11, <2>12, <2>13, <2>14
  <1> QED BY <1>1, <1>2, <1>3 DEF Contract

THEOREM Splits == Spec => []Contract
  <1>1. Spec => []Inv BY Starts, Steps, PTL DEF Spec
  <1>2. Inv => Contract BY Holds
  <1> QED BY <1>1, <1>2, PTL
=============================================================================
