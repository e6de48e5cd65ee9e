----------------------------- MODULE BuildProof -----------------------------
(***************************************************************************)
(* The build as it is implemented, for every number of points, dimension,  *)
(* leaf size, par_split_level and schedule (TLAPS proof; TLC checks the    *)
(* same and more for a few points, and the variants that must fail): when  *)
(* the call for the root has returned, every call has; each pushed exactly *)
(* one node, at a place of its own, the root last; a stem holds the places *)
(* of its two sides; the points of a call are parted among itself and its  *)
(* sides by coordinate, in halves; leaves are small; and the bounds of     *)
(* each node enclose its points.                                           *)
(***************************************************************************)
EXTENDS Build, NaturalsInduction, TLAPS

ASSUME AsIs == /\ N \in Nat /\ N > 0 /\ Dim \in Nat /\ Dim > 0 /\ W \in Nat
               /\ PushMode = "locked" /\ JoinMode = "all" /\ BoundsMode = "right" /\ Ties = TRUE

Ids == 0..(N - 1)
Paths == Seq({0, 1})
D == DOMAIN task
Kid(p, c) == Append(p, c)
Axis(p) == Axis0(p) + 1
Bounds == [1..Dim -> Int]
TaskRec == [pc : {"todo", "held", "wait", "push", "done"}, S : SUBSET Ids,
            lo : Bounds, hi : Bounds, m : Int, at : Int]

Encloses(p) == \A i \in task[p].S, a \in 1..Dim :
                  task[p].lo[a] <= pts[i + 1][a] /\ pts[i + 1][a] <= task[p].hi[a]

Parted(p) ==
    LET t == task[p]
        l == task[Kid(p, 0)]
        r == task[Kid(p, 1)]
    IN /\ t.S = l.S \cup {t.m} \cup r.S
       /\ t.m \notin l.S /\ t.m \notin r.S /\ l.S \cap r.S = {}
       /\ Cardinality(l.S) = Cardinality(t.S) \div 2
       /\ \A i \in l.S : pts[i + 1][Axis(p)] <= pts[t.m + 1][Axis(p)]
       /\ \A i \in r.S : pts[i + 1][Axis(p)] >= pts[t.m + 1][Axis(p)]

Stem(p) == task[p].m # -1
Shape(p) ==
    LET t == task[p]
    IN /\ t.m \in Ids \cup {-1}
       /\ ~Stem(p) => Kid(p, 0) \notin D /\ Kid(p, 1) \notin D
       /\ Stem(p) => Kid(p, 0) \in D /\ Kid(p, 1) \in D /\ Parted(p)
       /\ t.pc \in {"todo", "held"} => ~Stem(p)
       /\ t.pc = "wait" => Stem(p)
       /\ t.pc \in {"push", "done"} /\ Stem(p) => task[Kid(p, 0)].pc = "done" /\ task[Kid(p, 1)].pc = "done"
       /\ t.pc \in {"push", "done"} /\ ~Stem(p) => Cardinality(t.S) <= leaf
       /\ t.pc # "done" => t.at = -1
       /\ t.pc = "done" => t.at \in 0..(Len(nodes) - 1) /\ nodes[t.at + 1] = NodeOf(p)
       /\ t.pc = "done" /\ Stem(p) => task[Kid(p, 0)].at < t.at /\ task[Kid(p, 1)].at < t.at
       /\ Encloses(p)
       /\ p # Root => \E q \in D, c \in {0, 1} : p = Kid(q, c) /\ Stem(q)

Type ==
    /\ pts \in Inputs
    /\ \E X : nodes \in Seq(X)
    /\ Root \in D /\ D \subseteq Paths
    /\ task \in [D -> TaskRec]
    /\ task[Root].S = Ids

Inv ==
    /\ Type
    /\ \A p \in D : Shape(p)
    /\ \A p, q \in D : task[p].pc = "done" /\ task[q].pc = "done" /\ task[p].at = task[q].at => p = q
    /\ \A i \in 0..(Len(nodes) - 1) : \E p \in D : task[p].pc = "done" /\ task[p].at = i

Contract ==
    task[Root].pc = "done" =>
       /\ \A p \in D : task[p].pc = "done"
       /\ task[Root].S = Ids /\ task[Root].at = Len(nodes) - 1
       /\ \A i \in 0..(Len(nodes) - 1) : \E p \in D : task[p].at = i /\ \A q \in D : task[q].at = i => q = p
       /\ \A p \in D :
            /\ task[p].at \in 0..(Len(nodes) - 1)
            /\ Encloses(p)
            /\ ~Stem(p) => /\ Cardinality(task[p].S) <= leaf
                           /\ nodes[task[p].at + 1] = [k |-> "L", pts |-> ListOf(task[p].S), lo |-> task[p].lo, hi |-> task[p].hi]
            /\ Stem(p) => /\ Kid(p, 0) \in D /\ Kid(p, 1) \in D /\ Parted(p)
                          /\ nodes[task[p].at + 1] = [k |-> "S", dim |-> Axis0(p), pt |-> task[p].m,
                                                      l |-> task[Kid(p, 0)].at, r |-> task[Kid(p, 1)].at,
                                                      lo |-> task[p].lo, hi |-> task[p].hi]

-----------------------------------------------------------------------------
LEMMA KidOf == ASSUME NEW p \in Paths, NEW c \in {0, 1}
               PROVE /\ Kid(p, c) \in Paths /\ Len(Kid(p, c)) = Len(p) + 1
                     /\ Kid(p, c) # Root /\ Kid(p, c) # p /\ Root \in Paths
  BY DEF Kid, Paths, Root

LEMMA KidOnce == ASSUME NEW p \in Paths, NEW q \in Paths, NEW c \in {0, 1}, NEW d \in {0, 1}, Kid(p, c) = Kid(q, d)
                 PROVE p = q /\ c = d
  <1>1. Len(p) = Len(q)
    <2>1. Len(Kid(p, c)) = Len(p) + 1 /\ Len(Kid(q, d)) = Len(q) + 1 BY KidOf
    <2> QED BY <2>1 DEF Paths
  <1>2. c = d
    <2>1. Kid(p, c)[Len(p) + 1] = c /\ Kid(q, d)[Len(q) + 1] = d BY DEF Kid, Paths
    <2> QED BY <2>1, <1>1
  <1>3. \A i \in 1..Len(p) : p[i] = q[i]
    <2> TAKE i \in 1..Len(p)
    <2>1. Kid(p, c)[i] = p[i] /\ Kid(q, d)[i] = q[i] BY <1>1 DEF Kid, Paths
    <2> QED BY <2>1
  <1>4. p = q BY <1>1, <1>3 DEF Paths
  <1> QED BY <1>2, <1>4

LEMMA KidsDiffer == ASSUME NEW p \in Paths PROVE Kid(p, 0) # Kid(p, 1)
  BY KidOnce

LEMMA AxisIn == ASSUME NEW p \in Paths PROVE Axis(p) \in 1..Dim /\ Axis0(p) \in Int
  <1>1. Len(p) \in Nat BY DEF Paths
  <1>2. Len(p) % Dim \in 0..(Dim - 1) BY <1>1, AsIs
  <1> QED BY <1>2, AsIs DEF Axis, Axis0, Level

LEMMA Coord == ASSUME pts \in Inputs, NEW i \in Ids, NEW a \in 1..Dim
               PROVE pts[i + 1][a] \in 0..W /\ pts[i + 1][a] \in Int
  BY AsIs DEF Inputs, Coords, Ids

LEMMA Push == ASSUME NEW X, NEW s \in Seq(X), NEW e
              PROVE /\ Append(s, e) \in Seq(X \cup {e}) /\ Len(Append(s, e)) = Len(s) + 1
                    /\ Len(s) \in Nat
                    /\ \A i \in 1..Len(s) : Append(s, e)[i] = s[i]
                    /\ Append(s, e)[Len(s) + 1] = e
  <1> DEFINE Y == X \cup {e}
  <1>1. s \in Seq(Y) /\ e \in Y OBVIOUS
  <1> HIDE DEF Y
  <1>2. /\ Append(s, e) \in Seq(Y) /\ Len(Append(s, e)) = Len(s) + 1
        /\ Len(s) \in Nat
        /\ \A i \in 1..Len(s) : Append(s, e)[i] = s[i]
        /\ Append(s, e)[Len(s) + 1] = e
    BY <1>1
  <1> QED BY <1>2 DEF Y

LEMMA Bottom == ASSUME NEW A, A \subseteq Nat, A # {} PROVE \E n \in A : \A m \in A : n <= m
  <1> DEFINE P(n) == n \in A
  <1>1. PICK n \in Nat : P(n) OBVIOUS
  <1> HIDE DEF P
  <1>2. \E m \in Nat : P(m) /\ \A k \in 0..(m - 1) : ~P(k) BY <1>1, SmallestNatural, Isa
  <1>3. PICK m \in Nat : P(m) /\ \A k \in 0..(m - 1) : ~P(k) BY <1>2
  <1>4. \A k \in A : m <= k BY <1>3 DEF P
  <1> QED BY <1>3, <1>4 DEF P

LEMMA Least == ASSUME pts \in Inputs, NEW a \in 1..Dim
               PROVE /\ MinOn(Ids, a) \in Int /\ MaxOn(Ids, a) \in Int
                     /\ \A i \in Ids : MinOn(Ids, a) <= pts[i + 1][a] /\ pts[i + 1][a] <= MaxOn(Ids, a)
  <1> DEFINE A == {pts[i + 1][a] : i \in Ids}
             B == {W - pts[i + 1][a] : i \in Ids}
  <1>0. 0 \in Ids BY AsIs DEF Ids
  <1>1. A \subseteq Nat /\ A # {} BY <1>0, Coord, AsIs
  <1>2. B \subseteq Nat /\ B # {} BY <1>0, Coord, AsIs
  <1>3. \E n \in A : \A m \in A : n <= m BY <1>1, Bottom
  <1>4. \E n \in B : \A m \in B : n <= m BY <1>2, Bottom
  <1>5. \E x \in 0..W : (\E i \in Ids : pts[i+1][a] = x) /\ \A i \in Ids : pts[i+1][a] >= x
    <2>1. PICK n \in A : \A m \in A : n <= m BY <1>3
    <2>2. PICK i \in Ids : pts[i + 1][a] = n BY <2>1
    <2>3. n \in 0..W BY <2>2, Coord
    <2>4. \A j \in Ids : pts[j + 1][a] \in A OBVIOUS
    <2> QED BY <2>1, <2>2, <2>3, <2>4, Coord
  <1>6. \E x \in 0..W : (\E i \in Ids : pts[i+1][a] = x) /\ \A i \in Ids : pts[i+1][a] <= x
    <2>1. PICK n \in B : \A m \in B : n <= m BY <1>4
    <2>2. PICK i \in Ids : W - pts[i + 1][a] = n BY <2>1
    <2>3. \A j \in Ids : W - pts[j + 1][a] \in B OBVIOUS
    <2>4. \A j \in Ids : pts[j + 1][a] <= pts[i + 1][a] BY <2>1, <2>2, <2>3, Coord, AsIs
    <2> QED BY <2>2, <2>4, Coord
  <1> HIDE DEF A, B
  <1>7. MinOn(Ids, a) \in 0..W /\ \A i \in Ids : pts[i+1][a] >= MinOn(Ids, a) BY <1>5 DEF MinOn
  <1>8. MaxOn(Ids, a) \in 0..W /\ \A i \in Ids : pts[i+1][a] <= MaxOn(Ids, a) BY <1>6 DEF MaxOn
  <1> QED BY <1>7, <1>8, Coord

-----------------------------------------------------------------------------
LEMMA Starts == Init => Inv
  <1> SUFFICES ASSUME Init PROVE Inv OBVIOUS
  <1> DEFINE lo == [a \in 1..Dim |-> MinOn(Ids, a)]
             hi == [a \in 1..Dim |-> MaxOn(Ids, a)]
  <1>1. pts \in Inputs /\ nodes = <<>> BY DEF Init
  <1>2. D = {Root} /\ task[Root] = NewTask(Ids, lo, hi) BY DEF Init, D, Ids
  <1>3. lo \in Bounds /\ hi \in Bounds BY Least, <1>1 DEF Bounds
  <1>4. task[Root] \in TaskRec BY <1>2, <1>3 DEF NewTask, TaskRec
  <1>5. Type
    <2>1. nodes \in Seq({}) BY <1>1
    <2>2. Root \in Paths BY DEF Root, Paths
    <2>3. task \in [D -> TaskRec] BY <1>2, <1>4 DEF Init, D
    <2> QED BY <1>1, <1>2, <2>1, <2>2, <2>3 DEF Type, NewTask
  <1>6. Shape(Root)
    <2>1. Kid(Root, 0) # Root /\ Kid(Root, 1) # Root BY KidOf DEF Root, Paths
    <2>2. Encloses(Root) BY <1>2, Least, <1>1 DEF Encloses, NewTask
    <2> QED BY <1>2, <2>1, <2>2 DEF Shape, NewTask, Stem
  <1>7. Len(nodes) = 0 BY <1>1
  <1> QED BY <1>2, <1>5, <1>6, <1>7 DEF Inv

-----------------------------------------------------------------------------
(* a step that changes only pc of one task, to a state that is not "done" *)
LEMMA Moves == ASSUME Inv, NEW p \in D, NEW s \in {"todo", "push"},
                      task[p].pc # "done",
                      task' = [task EXCEPT ![p].pc = s],
                      UNCHANGED <<pts, leaf, nodes>>,
                      s = "todo" => ~Stem(p),
                      s = "push" /\ Stem(p) => task[Kid(p, 0)].pc = "done" /\ task[Kid(p, 1)].pc = "done",
                      s = "push" /\ ~Stem(p) => Cardinality(task[p].S) <= leaf
               PROVE Inv'
  <1> USE DEF Inv
  <1>1. D' = D /\ D \subseteq Paths BY DEF D, Type
  <1>2. task[p] \in TaskRec BY DEF Type
  <1>3. \A q \in D : /\ task'[q].S = task[q].S /\ task'[q].lo = task[q].lo /\ task'[q].hi = task[q].hi
                     /\ task'[q].m = task[q].m /\ task'[q].at = task[q].at
                     /\ task'[q].pc = IF q = p THEN s ELSE task[q].pc
    BY <1>2 DEF Type, TaskRec, D
  <1>4. \A q \in D : task'[q] \in TaskRec BY <1>2 DEF Type, TaskRec, D
  <1>5. task' \in [D -> TaskRec] BY <1>4 DEF Type, D
  <1>6. Type' BY <1>1, <1>3, <1>5 DEF Type
  <1>7. ASSUME NEW q \in D PROVE Shape(q)'
    <2>1. Shape(q) OBVIOUS
    <2>2. Stem(q)' <=> Stem(q) BY <1>3 DEF Stem
    <2>3. Encloses(q)' BY <2>1, <1>3 DEF Shape, Encloses
    <2>4. Stem(q) => Parted(q)' BY <2>1, <1>3 DEF Shape, Parted
    <2>5. task[q].pc = "done" => NodeOf(q)' = NodeOf(q)
      BY <2>1, <1>3 DEF Shape, NodeOf, Stem, Kid
    <2>6. q # Root => \E r \in D, c \in {0, 1} : q = Kid(r, c) /\ Stem(r)'
      BY <2>1, <1>3 DEF Shape, Stem
    <2>7. task[q].pc \in {"push", "done"} /\ Stem(q) => (task'[Kid(q, 0)].pc = "done" /\ task'[Kid(q, 1)].pc = "done")
      BY <2>1, <1>3 DEF Shape
    <2>8. q = p /\ s = "push" /\ Stem(q) => task'[Kid(q, 0)].pc = "done" /\ task'[Kid(q, 1)].pc = "done"
      <3> SUFFICES ASSUME q = p, s = "push", Stem(q) PROVE task'[Kid(q, 0)].pc = "done" /\ task'[Kid(q, 1)].pc = "done" OBVIOUS
      <3>1. Kid(q, 0) \in D /\ Kid(q, 1) \in D BY <2>1 DEF Shape
      <3>2. Kid(q, 0) # p /\ Kid(q, 1) # p BY KidOf, <1>1
      <3> QED BY <3>1, <3>2, <1>3
    <2>9. q = p => task[q].at = -1 BY <2>1 DEF Shape
    <2> QED BY <2>1, <2>2, <2>3, <2>4, <2>5, <2>6, <2>7, <2>8, <2>9, <1>1, <1>3 DEF Shape
  <1>8. \A x, y \in D : task'[x].pc = "done" /\ task'[y].pc = "done" /\ task'[x].at = task'[y].at => x = y
    BY <1>3
  <1>9. \A i \in 0..(Len(nodes) - 1) : \E x \in D : task'[x].pc = "done" /\ task'[x].at = i
    BY <1>3
  <1> QED BY <1>1, <1>6, <1>7, <1>8, <1>9

LEMMA Locks == ASSUME Inv, NEW p \in D, Locked(p) PROVE Inv'
  <1> USE DEF Inv
  <1> DEFINE n == Len(nodes)
  <1>0. PICK X : nodes \in Seq(X) BY DEF Type
  <1>a. /\ task[p].pc = "push" /\ task' = [task EXCEPT ![p].pc = "done", ![p].at = Len(nodes)]
        /\ nodes' = Append(nodes, NodeOf(p)) /\ UNCHANGED <<pts, leaf, psl>>
    BY DEF Locked
  <1>1. D' = D /\ D \subseteq Paths BY <1>a DEF D, Type
  <1>2. task[p] \in TaskRec /\ n \in Nat BY <1>0 DEF Type
  <1>3. \A q \in D : /\ task'[q].S = task[q].S /\ task'[q].lo = task[q].lo /\ task'[q].hi = task[q].hi
                     /\ task'[q].m = task[q].m
                     /\ task'[q].at = IF q = p THEN n ELSE task[q].at
                     /\ task'[q].pc = IF q = p THEN "done" ELSE task[q].pc
    BY <1>2, <1>a DEF Type, TaskRec, D
  <1>4. \A q \in D : task'[q] \in TaskRec BY <1>2, <1>a DEF Type, TaskRec, D
  <1>5. task' \in [D -> TaskRec] BY <1>4, <1>a DEF Type, D
  <1>6. nodes' \in Seq(X \cup {NodeOf(p)}) /\ Len(nodes') = n + 1
        /\ (\A i \in 1..n : nodes'[i] = nodes[i]) /\ nodes'[n + 1] = NodeOf(p)
    BY Push, <1>0, <1>a
  <1>7. Type'
    <2>1. (\E Y : nodes \in Seq(Y))' BY <1>6
    <2> QED BY <1>1, <1>3, <1>5, <1>a, <2>1 DEF Type
  <1>8. \A q \in D : task[q].pc = "done" => q # p /\ task[q].at \in 0..(n - 1) BY <1>a DEF Shape
  <1>9. ASSUME NEW q \in D PROVE NodeOf(q)' = NodeOf(q) \/ task'[q].pc # "done"
    <2> SUFFICES ASSUME task'[q].pc = "done" PROVE NodeOf(q)' = NodeOf(q) OBVIOUS
    <2>1. Shape(q) OBVIOUS
    <2>2. task[q].pc \in {"push", "done"} BY <1>3, <1>a
    <2>3. CASE ~Stem(q)
      <3>1. task[q].m < 0 /\ task'[q].m < 0 BY <2>3, <1>3 DEF Stem
      <3> QED BY <3>1, <1>3 DEF NodeOf
    <2>4. CASE Stem(q)
      <3>1. Kid(q, 0) \in D /\ Kid(q, 1) \in D /\ task[Kid(q, 0)].pc = "done" /\ task[Kid(q, 1)].pc = "done"
        BY <2>1, <2>2, <2>4 DEF Shape
      <3>2. Kid(q, 0) # p /\ Kid(q, 1) # p BY <3>1, <1>8
      <3>3. task'[Kid(q, 0)].at = task[Kid(q, 0)].at /\ task'[Kid(q, 1)].at = task[Kid(q, 1)].at BY <3>1, <3>2, <1>3
      <3> QED BY <3>3, <1>3 DEF NodeOf, Kid
    <2> QED BY <2>3, <2>4
  <1>10. ASSUME NEW q \in D PROVE Shape(q)'
    <2>1. Shape(q) OBVIOUS
    <2>2. Stem(q)' <=> Stem(q) BY <1>3 DEF Stem
    <2>3. Encloses(q)' BY <2>1, <1>3, <1>a DEF Shape, Encloses
    <2>4. Stem(q) => Parted(q)' BY <2>1, <1>3, <1>a DEF Shape, Parted
    <2>5. q # Root => \E r \in D, c \in {0, 1} : q = Kid(r, c) /\ Stem(r)'
      BY <2>1, <1>3 DEF Shape, Stem
    <2>6. task'[q].pc \in {"push", "done"} => task[q].pc \in {"push", "done"} BY <1>3, <1>a
    <2>7. task'[q].pc \in {"push", "done"} /\ Stem(q) =>
             /\ Kid(q, 0) \in D /\ Kid(q, 1) \in D
             /\ task[Kid(q, 0)].pc = "done" /\ task[Kid(q, 1)].pc = "done"
      BY <2>1, <2>6 DEF Shape
    <2>8. task'[q].pc \in {"push", "done"} /\ Stem(q) =>
             /\ task'[Kid(q, 0)].pc = "done" /\ task'[Kid(q, 1)].pc = "done"
             /\ task'[Kid(q, 0)].at = task[Kid(q, 0)].at /\ task'[Kid(q, 1)].at = task[Kid(q, 1)].at
             /\ task[Kid(q, 0)].at \in 0..(n - 1) /\ task[Kid(q, 1)].at \in 0..(n - 1)
      BY <2>7, <1>8, <1>3
    <2>9. task'[q].pc = "done" => task'[q].at \in 0..(Len(nodes') - 1) /\ nodes'[task'[q].at + 1] = NodeOf(q)
      <3>1. CASE q = p BY <3>1, <1>3, <1>6, <1>2
      <3>2. CASE q # p
        <4> SUFFICES ASSUME task'[q].pc = "done" PROVE task'[q].at \in 0..(Len(nodes') - 1) /\ nodes'[task'[q].at + 1] = NodeOf(q) OBVIOUS
        <4>1. task[q].pc = "done" /\ task'[q].at = task[q].at BY <3>2, <1>3
        <4>2. task[q].at \in 0..(n - 1) /\ nodes[task[q].at + 1] = NodeOf(q) BY <4>1, <2>1 DEF Shape
        <4> QED BY <4>1, <4>2, <1>6, <1>2
      <3> QED BY <3>1, <3>2
    <2>10. task'[q].pc = "done" /\ Stem(q) => task'[Kid(q, 0)].at < task'[q].at /\ task'[Kid(q, 1)].at < task'[q].at
      <3>1. CASE q = p BY <3>1, <1>3, <2>8, <1>2
      <3>2. CASE q # p BY <3>2, <1>3, <2>8, <2>1 DEF Shape
      <3> QED BY <3>1, <3>2
    <2>11. task'[q].pc # "done" => task'[q].at = -1 BY <2>1, <1>3 DEF Shape
    <2>12. task'[q].pc \in {"push", "done"} /\ ~Stem(q) => Cardinality(task[q].S) <= leaf BY <2>6, <2>1 DEF Shape
    <2>13. /\ task'[q].m \in Ids \cup {-1}
           /\ ~Stem(q) => Kid(q, 0) \notin D /\ Kid(q, 1) \notin D
           /\ Stem(q) => Kid(q, 0) \in D /\ Kid(q, 1) \in D
           /\ task'[q].pc \in {"todo", "held"} => ~Stem(q)
           /\ task'[q].pc = "wait" => Stem(q)
      BY <2>1, <1>3 DEF Shape
    <2>14. task'[q].pc = "done" => nodes'[task'[q].at + 1] = NodeOf(q)' BY <2>9, <1>9
    <2>15. leaf' = leaf /\ task'[q].S = task[q].S BY <1>a, <1>3
    <2> HIDE DEF Inv
    <2> QED BY <2>2, <2>3, <2>4, <2>5, <2>8, <2>9, <2>10, <2>11, <2>12, <2>13, <2>14, <2>15, <1>1 DEF Shape
  <1>11. \A x, y \in D : task'[x].pc = "done" /\ task'[y].pc = "done" /\ task'[x].at = task'[y].at => x = y
    <2> SUFFICES ASSUME NEW x \in D, NEW y \in D, task'[x].pc = "done", task'[y].pc = "done", task'[x].at = task'[y].at
                 PROVE x = y OBVIOUS
    <2>1. CASE x = p /\ y # p BY <2>1, <1>3, <1>8, <1>2
    <2>2. CASE x # p /\ y = p BY <2>2, <1>3, <1>8, <1>2
    <2>3. CASE x # p /\ y # p BY <2>3, <1>3
    <2> QED BY <2>1, <2>2, <2>3
  <1>12. \A i \in 0..(Len(nodes') - 1) : \E x \in D : task'[x].pc = "done" /\ task'[x].at = i
    <2> TAKE i \in 0..(Len(nodes') - 1)
    <2>1. CASE i = n BY <2>1, <1>3
    <2>2. CASE i # n
      <3>1. i \in 0..(n - 1) BY <2>2, <1>6, <1>2
      <3>2. PICK x \in D : task[x].pc = "done" /\ task[x].at = i BY <3>1
      <3> QED BY <3>2, <1>8, <1>3
    <2> QED BY <2>1, <2>2
  <1> QED BY <1>1, <1>7, <1>10, <1>11, <1>12

LEMMA Spawns == ASSUME Inv, NEW p \in D, task[p].pc = "todo",
                       NEW L \in SUBSET task[p].S, NEW m \in task[p].S,
                       <<L, m>> \in Splits(task[p].S, Axis(p)),
                       Spawn(p, L, m), UNCHANGED <<pts, leaf, psl, nodes>>
                PROVE Inv'
  <1> USE DEF Inv
  <1> DEFINE t == task[p]
             a == Axis(p)
             v == pts[m + 1][a]
             R == t.S \ (L \cup {m})
             K0 == Kid(p, 0)
             K1 == Kid(p, 1)
             hi0 == [t.hi EXCEPT ![a] = v]
             lo1 == [t.lo EXCEPT ![a] = v]
  <1>0. p \in Paths /\ a \in 1..Dim /\ t \in TaskRec /\ m \in Ids /\ L \subseteq Ids /\ R \subseteq Ids /\ pts \in Inputs
    BY AxisIn DEF Type, TaskRec
  <1>1. v \in Int BY <1>0, Coord
  <1>2. Shape(p) /\ ~Stem(p) /\ K0 \notin D /\ K1 \notin D BY DEF Shape
  <1>3. K0 # K1 /\ K0 # p /\ K1 # p /\ K0 \in Paths /\ K1 \in Paths BY <1>0, KidOf, KidsDiffer
  <1>4. /\ m \notin L /\ Cardinality(L) = Cardinality(t.S) \div 2
        /\ \A i \in L : pts[i + 1][a] <= v
        /\ \A i \in R : pts[i + 1][a] >= v
    BY DEF Splits
  <1>5. \E s \in {"todo", "held"} :
          task' = [task EXCEPT ![p].pc = "wait", ![p].m = m]
                  @@ (K0 :> NewTask(L, t.lo, hi0))
                  @@ (K1 :> [NewTask(R, lo1, t.hi) EXCEPT !.pc = s])
    <2>1. BoundsMode = "right" BY AsIs
    <2>2. Axis0(p) + 1 = a BY DEF Axis
    <2>3. [NewTask(R, lo1, t.hi) EXCEPT !.pc = "todo"] = NewTask(R, lo1, t.hi) BY DEF NewTask
    <2>4. CASE Level(p) < psl
      <3>1. task' = [task EXCEPT ![p].pc = "wait", ![p].m = m]
                  @@ (K0 :> NewTask(L, t.lo, hi0))
                  @@ (K1 :> NewTask(R, lo1, t.hi)) BY <2>1, <2>2, <2>4 DEF Spawn, LowerHalf, UpperHalf, Kid
      <3> QED BY <3>1, <2>3
    <2>5. CASE ~(Level(p) < psl)
      BY <2>1, <2>2, <2>5 DEF Spawn, LowerHalf, UpperHalf, Kid
    <2> QED BY <2>4, <2>5
  <1>6. PICK s \in {"todo", "held"} :
          task' = [task EXCEPT ![p].pc = "wait", ![p].m = m]
                  @@ (K0 :> NewTask(L, t.lo, hi0))
                  @@ (K1 :> [NewTask(R, lo1, t.hi) EXCEPT !.pc = s])
    BY <1>5
  <1> DEFINE t0 == NewTask(L, t.lo, hi0)
             t1 == [NewTask(R, lo1, t.hi) EXCEPT !.pc = s]
             tp == [task EXCEPT ![p].pc = "wait", ![p].m = m]
  <1>7. D' = D \cup {K0, K1} BY <1>6 DEF D
  <1>8. /\ task'[K0] = t0 /\ task'[K1] = t1
        /\ \A q \in D : task'[q] = tp[q]
    BY <1>6, <1>2, <1>3 DEF D
  <1>9. /\ task'[p].pc = "wait" /\ task'[p].m = m /\ task'[p].S = t.S /\ task'[p].lo = t.lo
        /\ task'[p].hi = t.hi /\ task'[p].at = t.at /\ task'[p] \in TaskRec
    <2>1. tp[p] = [[t EXCEPT !.pc = "wait"] EXCEPT !.m = m] BY DEF Type, D
    <2> QED BY <2>1, <1>8, <1>0 DEF TaskRec, Ids
  <1>10. \A q \in D : q # p => task'[q] = task[q] BY <1>8 DEF Type, D
  <1>11. hi0 \in Bounds /\ lo1 \in Bounds /\ t.lo \in Bounds /\ t.hi \in Bounds BY <1>0, <1>1 DEF Bounds, TaskRec
  <1>12. /\ t0 \in TaskRec /\ t0.pc = "todo" /\ t0.S = L /\ t0.lo = t.lo /\ t0.hi = hi0 /\ t0.m = -1 /\ t0.at = -1
         /\ t1 \in TaskRec /\ t1.pc \in {"todo", "held"} /\ t1.S = R /\ t1.lo = lo1 /\ t1.hi = t.hi /\ t1.m = -1 /\ t1.at = -1
    BY <1>11, <1>0 DEF NewTask, TaskRec
  <1>13. Type'
    <2>1. \A q \in D' : task'[q] \in TaskRec BY <1>7, <1>8, <1>9, <1>10, <1>12 DEF Type
    <2>2. task' = [q \in D' |-> task'[q]] BY <1>6 DEF D
    <2>3. task' \in [D' -> TaskRec] BY <2>1, <2>2
    <2>4. task'[Root].S = Ids BY <1>9, <1>10 DEF Type
    <2> QED BY <1>7, <1>3, <2>3, <2>4 DEF Type
  <1>14. Encloses(p) BY <1>2 DEF Shape
  <1>15. Shape(K0)'
    <2>1. Kid(K0, 0) \notin D' /\ Kid(K0, 1) \notin D'
      <3>1. ASSUME NEW c \in {0, 1} PROVE Kid(K0, c) \notin D'
        <4>1. Len(Kid(K0, c)) = Len(p) + 2 /\ Len(K0) = Len(p) + 1 /\ Len(K1) = Len(p) + 1 /\ Len(p) \in Nat
          BY <1>3, <1>0, KidOf DEF Paths
        <4>2. Kid(K0, c) # K0 /\ Kid(K0, c) # K1 BY <4>1
        <4>3. Kid(K0, c) \notin D
          <5> SUFFICES ASSUME Kid(K0, c) \in D PROVE FALSE OBVIOUS
          <5>1. Kid(K0, c) # Root BY KidOf, <1>3
          <5>2. PICK q \in D, d \in {0, 1} : Kid(K0, c) = Kid(q, d) BY <5>1 DEF Shape
          <5>3. q = K0 BY <5>2, <1>3, KidOnce DEF Type
          <5> QED BY <5>3, <1>2
        <4> QED BY <4>2, <4>3, <1>7
      <3> QED BY <3>1
    <2>2. Encloses(K0)'
      <3> SUFFICES ASSUME NEW i \in L, NEW b \in 1..Dim
                   PROVE t.lo[b] <= pts[i + 1][b] /\ pts[i + 1][b] <= hi0[b]
        BY <1>8, <1>12 DEF Encloses
      <3>1. t.lo[b] <= pts[i + 1][b] /\ pts[i + 1][b] <= t.hi[b] BY <1>14 DEF Encloses
      <3>2. hi0[b] = IF b = a THEN v ELSE t.hi[b] BY <1>0, <1>11 DEF Bounds
      <3> QED BY <3>1, <3>2, <1>4
    <2>3. K0 # Root => \E q \in D', c \in {0, 1} : K0 = Kid(q, c) /\ Stem(q)'
      <3>1. Stem(p)' BY <1>9, <1>0 DEF Stem, Ids
      <3> QED BY <3>1, <1>7
    <2>4. ~Stem(K0)' BY <1>8, <1>12 DEF Stem
    <2> QED BY <2>1, <2>2, <2>3, <2>4, <1>8, <1>12 DEF Shape
  <1>16. Shape(K1)'
    <2>1. Kid(K1, 0) \notin D' /\ Kid(K1, 1) \notin D'
      <3>1. ASSUME NEW c \in {0, 1} PROVE Kid(K1, c) \notin D'
        <4>1. Len(Kid(K1, c)) = Len(p) + 2 /\ Len(K0) = Len(p) + 1 /\ Len(K1) = Len(p) + 1 /\ Len(p) \in Nat
          BY <1>3, <1>0, KidOf DEF Paths
        <4>2. Kid(K1, c) # K0 /\ Kid(K1, c) # K1 BY <4>1
        <4>3. Kid(K1, c) \notin D
          <5> SUFFICES ASSUME Kid(K1, c) \in D PROVE FALSE OBVIOUS
          <5>1. Kid(K1, c) # Root BY KidOf, <1>3
          <5>2. PICK q \in D, d \in {0, 1} : Kid(K1, c) = Kid(q, d) BY <5>1 DEF Shape
          <5>3. q = K1 BY <5>2, <1>3, KidOnce DEF Type
          <5> QED BY <5>3, <1>2
        <4> QED BY <4>2, <4>3, <1>7
      <3> QED BY <3>1
    <2>2. Encloses(K1)'
      <3> SUFFICES ASSUME NEW i \in R, NEW b \in 1..Dim
                   PROVE lo1[b] <= pts[i + 1][b] /\ pts[i + 1][b] <= t.hi[b]
        BY <1>8, <1>12 DEF Encloses
      <3>1. t.lo[b] <= pts[i + 1][b] /\ pts[i + 1][b] <= t.hi[b] BY <1>14 DEF Encloses
      <3>2. lo1[b] = IF b = a THEN v ELSE t.lo[b] BY <1>0, <1>11 DEF Bounds
      <3>3. pts[i + 1][a] >= v BY <1>4
      <3>4. pts[i + 1][b] \in Int /\ pts[i + 1][a] \in Int BY <1>0, Coord
      <3> QED BY <3>1, <3>2, <3>3, <3>4, <1>1
    <2>3. K1 # Root => \E q \in D', c \in {0, 1} : K1 = Kid(q, c) /\ Stem(q)'
      <3>1. Stem(p)' BY <1>9, <1>0 DEF Stem, Ids
      <3> QED BY <3>1, <1>7
    <2>4. ~Stem(K1)' BY <1>8, <1>12 DEF Stem
    <2> QED BY <2>1, <2>2, <2>3, <2>4, <1>8, <1>12 DEF Shape
  <1>17. Shape(p)'
    <2>1. Stem(p)' BY <1>9, <1>0 DEF Stem, Ids
    <2>2. Parted(p)'
      <3>1. t.S = L \cup {m} \cup R /\ m \notin L /\ m \notin R /\ L \cap R = {} BY <1>4
      <3>2. /\ task'[p].S = t.S /\ task'[p].m = m /\ task'[K0].S = L /\ task'[K1].S = R BY <1>8, <1>9, <1>12
      <3>3. /\ \A i \in L : pts[i + 1][Axis(p)] <= pts[m + 1][Axis(p)]
            /\ \A i \in R : pts[i + 1][Axis(p)] >= pts[m + 1][Axis(p)] BY <1>4
      <3>4. Cardinality(L) = Cardinality(t.S) \div 2 BY <1>4
      <3> HIDE DEF t, R, K0, K1
      <3> QED BY <3>1, <3>2, <3>3, <3>4 DEF Parted, K0, K1, Axis, Axis0, Level
    <2>3. Encloses(p)' BY <1>14, <1>9 DEF Encloses
    <2>4. p # Root => \E q \in D', c \in {0, 1} : p = Kid(q, c) /\ Stem(q)'
      <3> SUFFICES ASSUME p # Root PROVE \E q \in D', c \in {0, 1} : p = Kid(q, c) /\ Stem(q)' OBVIOUS
      <3>1. PICK q \in D, c \in {0, 1} : p = Kid(q, c) /\ Stem(q) BY <1>2 DEF Shape
      <3>2. q # p BY <3>1, KidOf DEF Type
      <3>3. Stem(q)' BY <3>1, <3>2, <1>10 DEF Stem
      <3> QED BY <3>1, <3>3, <1>7
    <2>5. t.at = -1 BY <1>2 DEF Shape
    <2> QED BY <2>1, <2>2, <2>3, <2>4, <2>5, <1>7, <1>9, <1>0 DEF Shape
  <1>18. ASSUME NEW q \in D, q # p PROVE Shape(q)'
    <2>1. Shape(q) /\ q \in Paths BY DEF Type
    <2>2. task'[q] = task[q] BY <1>10, <1>18
    <2>3. Stem(q)' <=> Stem(q) BY <2>2 DEF Stem
    <2>4. ASSUME NEW c \in {0, 1} PROVE Kid(q, c) # K0 /\ Kid(q, c) # K1
      BY <2>1, <1>0, <1>18, KidOnce
    <2>5. Stem(q) => Kid(q, 0) \in D /\ Kid(q, 1) \in D BY <2>1 DEF Shape
    <2>6. ASSUME NEW c \in {0, 1}, Kid(q, c) \in D
          PROVE /\ task'[Kid(q, c)].S = task[Kid(q, c)].S /\ task'[Kid(q, c)].at = task[Kid(q, c)].at
                /\ task[Kid(q, c)].pc = "done" => task'[Kid(q, c)].pc = "done"
      BY <2>6, <1>9, <1>10
    <2>7. Stem(q) => Parted(q)'
      <3> SUFFICES ASSUME Stem(q) PROVE Parted(q)' OBVIOUS
      <3>1. Parted(q) BY <2>1 DEF Shape
      <3>2. task'[Kid(q, 0)].S = task[Kid(q, 0)].S /\ task'[Kid(q, 1)].S = task[Kid(q, 1)].S BY <2>5, <2>6
      <3> QED BY <3>1, <3>2, <2>2 DEF Parted
    <2>8. Encloses(q)' BY <2>1, <2>2 DEF Shape, Encloses
    <2>9. task[q].pc = "done" => NodeOf(q)' = NodeOf(q)
      <3>1. CASE ~Stem(q)
        <4>1. task[q].m < 0 BY <3>1 DEF Stem
        <4> QED BY <4>1, <2>2 DEF NodeOf
      <3>2. CASE Stem(q)
        <4>1. task'[Kid(q, 0)].at = task[Kid(q, 0)].at /\ task'[Kid(q, 1)].at = task[Kid(q, 1)].at BY <3>2, <2>5, <2>6
        <4> QED BY <4>1, <2>2 DEF NodeOf, Kid
      <3> QED BY <3>1, <3>2
    <2>10. q # Root => \E r \in D', c \in {0, 1} : q = Kid(r, c) /\ Stem(r)'
      <3> SUFFICES ASSUME q # Root PROVE \E r \in D', c \in {0, 1} : q = Kid(r, c) /\ Stem(r)' OBVIOUS
      <3>1. PICK r \in D, c \in {0, 1} : q = Kid(r, c) /\ Stem(r) BY <2>1 DEF Shape
      <3>2. r # p BY <3>1, <1>2
      <3>3. Stem(r)' BY <3>1, <3>2, <1>10 DEF Stem
      <3> QED BY <3>1, <3>3, <1>7
    <2>11. ~Stem(q) => Kid(q, 0) \notin D' /\ Kid(q, 1) \notin D' BY <2>1, <2>4, <1>7 DEF Shape
    <2>12. Stem(q) => Kid(q, 0) \in D' /\ Kid(q, 1) \in D' BY <2>5, <1>7
    <2>13. task[q].pc \in {"push", "done"} /\ Stem(q) => task'[Kid(q, 0)].pc = "done" /\ task'[Kid(q, 1)].pc = "done"
      BY <2>1, <2>5, <2>6 DEF Shape
    <2>14. task[q].pc = "done" /\ Stem(q) => task'[Kid(q, 0)].at < task[q].at /\ task'[Kid(q, 1)].at < task[q].at
      BY <2>1, <2>5, <2>6 DEF Shape
    <2> QED BY <2>1, <2>2, <2>3, <2>7, <2>8, <2>9, <2>10, <2>11, <2>12, <2>13, <2>14 DEF Shape
  <1>19. \A q \in D' : task'[q].pc = "done" => q \in D /\ q # p /\ task'[q] = task[q]
    BY <1>7, <1>8, <1>9, <1>10, <1>12
  <1>20. \A x, y \in D' : task'[x].pc = "done" /\ task'[y].pc = "done" /\ task'[x].at = task'[y].at => x = y
    BY <1>19
  <1>21. \A i \in 0..(Len(nodes) - 1) : \E x \in D' : task'[x].pc = "done" /\ task'[x].at = i
    BY <1>7, <1>10
  <1>22. \A q \in D' : Shape(q)' BY <1>7, <1>15, <1>16, <1>17, <1>18
  <1> QED BY <1>13, <1>20, <1>21, <1>22

LEMMA Steps == ASSUME Inv, [Next]_vars PROVE Inv'
  <1>1. CASE UNCHANGED vars
    BY <1>1 DEF vars, Inv, Type, Shape, Encloses, Parted, Stem, D, NodeOf
  <1>2. ASSUME NEW p \in D, Step(p) PROVE Inv'
    <2>1. CASE Start(p)
      <3>1. Shape(p) /\ task[p].pc = "todo" BY <2>1 DEF Inv, Start
      <3>2. CASE Cardinality(task[p].S) <= leaf
        <4>1. task' = [task EXCEPT ![p].pc = "push"] /\ UNCHANGED <<pts, leaf, nodes>> BY <2>1, <3>2 DEF Start
        <4> QED BY <4>1, <3>1, <3>2, Moves DEF Shape
      <3>3. CASE ~(Cardinality(task[p].S) <= leaf)
        <4>1. PICK x \in Splits(task[p].S, Axis(p)) : Spawn(p, x[1], x[2])
          BY <2>1, <3>3, AsIs DEF Start, SplitsOf, Axis
        <4>2. x = <<x[1], x[2]>> /\ x[1] \in SUBSET task[p].S /\ x[2] \in task[p].S BY <4>1 DEF Splits
        <4>3. UNCHANGED <<pts, leaf, psl, nodes>> BY <2>1 DEF Start
        <4> QED BY <4>1, <4>2, <4>3, <3>1, Spawns
      <3> QED BY <3>2, <3>3
    <2>2. CASE Second(p)
      <3>1. Shape(p) /\ Stem(p) /\ Kid(p, 1) \in D BY <2>2 DEF Inv, Second, Shape
      <3>2. Shape(Kid(p, 1)) BY <3>1 DEF Inv
      <3>3. task[Kid(p, 1)].pc = "held" /\ task' = [task EXCEPT ![Kid(p, 1)].pc = "todo"] /\ UNCHANGED <<pts, leaf, nodes>>
        BY <2>2 DEF Second, Kid
      <3>4. ~Stem(Kid(p, 1)) BY <3>2, <3>3 DEF Shape
      <3> QED BY <3>1, <3>3, <3>4, Moves
    <2>3. CASE Joined(p)
      <3>1. Shape(p) /\ Stem(p) BY <2>3 DEF Inv, Joined, Shape
      <3>2. task[Kid(p, 0)].pc = "done" /\ task[Kid(p, 1)].pc = "done" /\ task[p].pc = "wait"
            /\ task' = [task EXCEPT ![p].pc = "push"] /\ UNCHANGED <<pts, leaf, nodes>>
        BY <2>3, AsIs DEF Joined, Kid
      <3> QED BY <3>1, <3>2, Moves
    <2>4. CASE Locked(p) BY <2>4, Locks
    <2>5. CASE ReadPlace(p) BY <2>5, AsIs DEF ReadPlace
    <2>6. CASE PushLate(p) BY <2>6 DEF PushLate, Inv, Type, TaskRec
    <2> QED BY <1>2, <2>1, <2>2, <2>3, <2>4, <2>5, <2>6 DEF Step
  <1> QED BY <1>1, <1>2 DEF Next, D

LEMMA Holds == ASSUME Inv PROVE Contract
  <1> USE DEF Inv
  <1> SUFFICES ASSUME task[Root].pc = "done" PROVE Contract BY DEF Contract
  <1> DEFINE Q(n) == \A p \in D : Len(p) = n => task[p].pc = "done"
  <1>0. Root \in D /\ D \subseteq Paths /\ task \in [D -> TaskRec] /\ \A p \in D : Len(p) \in Nat BY DEF Type, Paths
  <1>1. Q(0)
    <2> SUFFICES ASSUME NEW p \in D, Len(p) = 0 PROVE task[p].pc = "done" OBVIOUS
    <2>1. p = Root BY <1>0 DEF Paths, Root
    <2> QED BY <2>1
  <1>2. ASSUME NEW n \in Nat, Q(n) PROVE Q(n + 1)
    <2> SUFFICES ASSUME NEW p \in D, Len(p) = n + 1 PROVE task[p].pc = "done" OBVIOUS
    <2>1. p # Root BY DEF Root
    <2>2. PICK q \in D, c \in {0, 1} : p = Kid(q, c) /\ Stem(q) BY <2>1 DEF Shape
    <2>3. Len(q) = n BY <2>2, <1>0, KidOf
    <2>4. task[q].pc = "done" BY <1>2, <2>3
    <2>5. Shape(q) OBVIOUS
    <2> QED BY <2>2, <2>4, <2>5 DEF Shape
  <1> HIDE DEF Q
  <1>3. \A n \in Nat : Q(n) BY <1>1, <1>2, NatInduction, Isa
  <1>4. \A p \in D : task[p].pc = "done" BY <1>3, <1>0 DEF Q
  <1>5. \A p \in D : task[p].at \in 0..(Len(nodes) - 1) /\ nodes[task[p].at + 1] = NodeOf(p) BY <1>4 DEF Shape
  <1>6. task[Root].at = Len(nodes) - 1
    <2>0. Len(nodes) \in Nat BY DEF Type
    <2>1. Len(nodes) - 1 \in 0..(Len(nodes) - 1) BY <1>5, <1>0, <2>0
    <2>2. PICK p \in D : task[p].at = Len(nodes) - 1 BY <2>1
    <2>3. ASSUME p # Root PROVE FALSE
      <3>1. PICK q \in D, c \in {0, 1} : p = Kid(q, c) /\ Stem(q) BY <2>3 DEF Shape
      <3>2. Shape(q) /\ task[q].pc = "done" BY <1>4
      <3>3. task[p].at < task[q].at BY <3>1, <3>2 DEF Shape
      <3>4. task[q].at \in 0..(Len(nodes) - 1) BY <1>5
      <3> QED BY <3>3, <3>4, <2>2, <2>0
    <2> QED BY <2>2, <2>3
  <1>7. \A i \in 0..(Len(nodes) - 1) : \E p \in D : task[p].at = i /\ \A q \in D : task[q].at = i => q = p
    <2> TAKE i \in 0..(Len(nodes) - 1)
    <2>1. PICK p \in D : task[p].at = i OBVIOUS
    <2> QED BY <2>1, <1>4
  <1>8. ASSUME NEW p \in D, ~Stem(p)
        PROVE /\ Cardinality(task[p].S) <= leaf
              /\ nodes[task[p].at + 1] = [k |-> "L", pts |-> ListOf(task[p].S), lo |-> task[p].lo, hi |-> task[p].hi]
    <2>1. task[p].m < 0 BY <1>8 DEF Stem
    <2>2. Cardinality(task[p].S) <= leaf BY <1>8, <1>4 DEF Shape
    <2> QED BY <2>1, <2>2, <1>5 DEF NodeOf
  <1>9. ASSUME NEW p \in D, Stem(p)
        PROVE /\ Kid(p, 0) \in D /\ Kid(p, 1) \in D /\ Parted(p)
              /\ nodes[task[p].at + 1] = [k |-> "S", dim |-> Axis0(p), pt |-> task[p].m,
                                          l |-> task[Kid(p, 0)].at, r |-> task[Kid(p, 1)].at,
                                          lo |-> task[p].lo, hi |-> task[p].hi]
    <2>1. Shape(p) OBVIOUS
    <2>2. Kid(p, 0) \in D /\ Kid(p, 1) \in D /\ Parted(p) BY <2>1, <1>9 DEF Shape
    <2>3. ~(task[p].m < 0) BY <2>1, <1>9 DEF Shape, Stem, Ids
    <2>4. ~(task[Kid(p, 0)].at < 0) /\ ~(task[Kid(p, 1)].at < 0) BY <2>2, <1>5
    <2> QED BY <2>2, <2>3, <2>4, <1>5 DEF NodeOf, Kid
  <1>10. \A p \in D : Encloses(p) BY DEF Shape
  <1>11. task[Root].S = Ids BY DEF Type
  <1> QED BY <1>4, <1>5, <1>6, <1>7, <1>8, <1>9, <1>10, <1>11 DEF Contract

THEOREM Builds == Spec => []Contract
  <1>1. Spec => []Inv BY Starts, Steps, PTL DEF Spec
  <1>2. Inv => Contract BY Holds
  <1> QED BY <1>1, <1>2, PTL
=============================================================================
