-------------------------------- MODULE Moms --------------------------------
(***************************************************************************)
(* Splitting a large slice, as the implementation performs it: an          *)
(* approximate median is taken out of the slice (any element may come out  *)
(* of the chunks), the smaller and the equal ones are counted, three       *)
(* cursors then swap every element into its third, and finally the split   *)
(* is placed at the position nearest to the middle that holds an element   *)
(* equal to the median.                                                    *)
(*                                                                         *)
(* Variants that must fail: Place "first" (the split at the first equal    *)
(* element: all duplicates on one side, so a build of equal points would   *)
(* recurse once per point), Right "skip" (the last third is not cleaned),  *)
(* Count "under" (one equal element is not counted).                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS MaxN, V, Place, Right, Count

VARIABLES a,        \* the slice: sequence of <<value, original index>>
          m,        \* the approximate median (a value)
          le, eq,   \* numbers of smaller and equal elements
          lp, ep, rp,  \* cursors, 0-based
          ln, rn,   \* rounds still to go in the two loops
          split, pc
vars == <<a, m, le, eq, lp, ep, rp, ln, rn, split, pc>>

n == Len(a)
Val(i) == a[i + 1][1]
Swap(s, i, j) == [s EXCEPT ![i + 1] = s[j + 1], ![j + 1] = s[i + 1]]
Cnt(s, P(_)) == Cardinality({i \in 1..Len(s) : P(s[i][1])})
Clamp3(x, lo, hi) == IF x < lo THEN lo ELSE IF x > hi THEN hi ELSE x

Init ==
    /\ \E k \in 1..MaxN, f \in [1..MaxN -> 0..V] :
         /\ \A i \in (k + 1)..MaxN : f[i] = 0
         /\ a = [i \in 1..k |-> <<f[i], i>>]
         /\ \E i \in 1..k : m = f[i]
    /\ le = 0 /\ eq = 0 /\ lp = 0 /\ ep = 0 /\ rp = 0 /\ ln = 0 /\ rn = 0 /\ split = -1
    /\ pc = "count"

DoCount ==
    /\ pc = "count"
    /\ le' = Cnt(a, LAMBDA x : x < m)
    /\ LET e == Cnt(a, LAMBDA x : x = m) IN eq' = IF Count = "under" /\ e > 1 THEN e - 1 ELSE e
    /\ lp' = 0 /\ ep' = le' /\ rp' = le' + eq'
    /\ ln' = le' /\ rn' = n - le' - eq'
    /\ pc' = "left"
    /\ UNCHANGED <<a, m, split>>

LeftLoop ==
    /\ pc = "left"
    /\ IF ln = 0 THEN pc' = "right" /\ UNCHANGED <<a, lp, ep, rp, ln, rn>>
       ELSE IF Val(lp) = m
         THEN /\ a' = Swap(a, lp, ep) /\ ep' = ep + 1 /\ UNCHANGED <<lp, rp, ln, rn, pc>>
       ELSE IF Val(lp) > m
         THEN /\ a' = Swap(a, lp, rp) /\ rp' = rp + 1 /\ rn' = rn - 1 /\ UNCHANGED <<lp, ep, ln, pc>>
       ELSE /\ lp' = lp + 1 /\ ln' = ln - 1 /\ UNCHANGED <<a, ep, rp, rn, pc>>
    /\ UNCHANGED <<m, le, eq, split>>

RightLoop ==
    /\ pc = "right"
    /\ IF rn = 0 \/ Right = "skip" THEN pc' = "place" /\ UNCHANGED <<a, ep, rp, rn>>
       ELSE IF Val(rp) = m
         THEN /\ a' = Swap(a, rp, ep) /\ ep' = ep + 1 /\ UNCHANGED <<rp, rn, pc>>
       ELSE /\ rp' = rp + 1 /\ rn' = rn - 1 /\ UNCHANGED <<a, ep, pc>>
    /\ UNCHANGED <<m, le, eq, lp, ln, split>>

DoPlace ==
    /\ pc = "place"
    /\ split' = IF Place = "middle" THEN Clamp3(n \div 2, le, le + eq - 1) ELSE le
    /\ pc' = "done"
    /\ UNCHANGED <<a, m, le, eq, lp, ep, rp, ln, rn>>

Next == DoCount \/ LeftLoop \/ RightLoop \/ DoPlace
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

(* every access is inside the slice: the implementation uses raw pointers *)
Inside ==
    /\ pc = "left" /\ ln > 0 => /\ lp \in 0..(n - 1)
                                /\ Val(lp) = m => ep \in 0..(n - 1)
                                /\ Val(lp) > m => rp \in 0..(n - 1)
    /\ pc = "right" /\ rn > 0 /\ Right # "skip" => /\ rp \in 0..(n - 1)
                                                   /\ Val(rp) = m => ep \in 0..(n - 1)
(* what is kept: the same elements *)
Permutation == Cardinality({a[i][2] : i \in 1..n}) = n /\ \A i \in 1..n : a[i][2] \in 1..n
(* done: partitioned around an element of the slice, both sides smaller than *)
(* the input, and no placement nearer to the middle would have been right    *)
Right3(s) ==
    /\ s \in 0..(n - 1)
    /\ \A i \in 0..(s - 1) : Val(i) <= Val(s)
    /\ \A i \in (s + 1)..(n - 1) : Val(i) >= Val(s)
Dist(x) == IF x < n \div 2 THEN (n \div 2) - x ELSE x - (n \div 2)
Correct ==
    pc = "done" => /\ Right3(split)
                   /\ Val(split) = m
                   /\ split < n /\ n - 1 - split < n
                   /\ \A s \in 0..(n - 1) : Val(s) = m => Dist(split) <= Dist(s)
Ends == <>(pc = "done")
=============================================================================
