------------------------------- MODULE Build -------------------------------
(***************************************************************************)
(* The steps of KdBuild, apart from what they are held against, so that    *)
(* BuildProof can argue about them for every number of points.             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS N, Dim, W,       \* number of points, dimension, coordinates 0..W
          Leaves, Levels,  \* leaf sizes and par_split_levels explored
          PushMode, JoinMode, BoundsMode,
          Ties,            \* TRUE: every admissible split; FALSE: one of them
          ListOf(_)        \* the points of a leaf in some order (SetToSeq)

VARIABLES pts, leaf, psl,  \* the problem
          task,            \* task[path]: a call of the recursive function
          nodes            \* the shared vector
vars == <<pts, leaf, psl, task, nodes>>

Coords == [1..Dim -> 0..W]
Inputs == [1..N -> Coords]
Root == <<>>
Level(p) == Len(p)
Axis0(p) == Level(p) % Dim                      \* 0-based

MinOn(S, a) == CHOOSE x \in 0..W : (\E i \in S : pts[i+1][a] = x) /\ \A i \in S : pts[i+1][a] >= x
MaxOn(S, a) == CHOOSE x \in 0..W : (\E i \in S : pts[i+1][a] = x) /\ \A i \in S : pts[i+1][a] <= x

NewTask(S, lo, hi) == [pc |-> "todo", S |-> S, lo |-> lo, hi |-> hi, m |-> -1, at |-> -1]

Init == /\ pts \in Inputs /\ leaf \in Leaves /\ psl \in Levels
        /\ nodes = <<>>
        /\ task = [p \in {Root} |->
                     NewTask(0..(N - 1), [a \in 1..Dim |-> MinOn(0..(N - 1), a)],
                                         [a \in 1..Dim |-> MaxOn(0..(N - 1), a)])]

(* selecting the middle element along the axis; equal values may go anywhere *)
Splits(S, a) ==
    {x \in (SUBSET S) \X S :
        /\ x[2] \notin x[1] /\ Cardinality(x[1]) = Cardinality(S) \div 2
        /\ \A i \in x[1] : pts[i+1][a] <= pts[x[2]+1][a]
        /\ \A i \in S \ (x[1] \cup {x[2]}) : pts[i+1][a] >= pts[x[2]+1][a]}
SplitsOf(S, a) == IF Ties THEN Splits(S, a) ELSE {CHOOSE x \in Splits(S, a) : TRUE}

LowerHalf(t, a, v) == [t.hi EXCEPT ![a] = v]
UpperHalf(t, a, v) == [t.lo EXCEPT ![a] = v]

Spawn(p, L, m) ==
    LET t == task[p]
        a == Axis0(p) + 1
        v == pts[m+1][a]
        R == t.S \ (L \cup {m})
        tl == IF BoundsMode = "right" THEN NewTask(L, t.lo, LowerHalf(t, a, v))
                                  ELSE NewTask(L, UpperHalf(t, a, v), t.hi)
        tr == IF BoundsMode = "right" THEN NewTask(R, UpperHalf(t, a, v), t.hi)
                                  ELSE NewTask(R, t.lo, LowerHalf(t, a, v))
        \* below psl the right half starts when the left one has returned
        later == [tr EXCEPT !.pc = "held"]
    IN task' = [task EXCEPT ![p].pc = "wait", ![p].m = m]
               @@ (Append(p, 0) :> tl)
               @@ (Append(p, 1) :> IF Level(p) < psl THEN tr ELSE later)

Start(p) ==
    /\ task[p].pc = "todo"
    /\ IF Cardinality(task[p].S) <= leaf
       THEN task' = [task EXCEPT ![p].pc = "push"]
       ELSE \E x \in SplitsOf(task[p].S, Axis0(p) + 1) : Spawn(p, x[1], x[2])
    /\ UNCHANGED <<pts, leaf, psl, nodes>>

Second(p) ==
    /\ task[p].pc = "wait"
    /\ task[Append(p, 1)].pc = "held" /\ task[Append(p, 0)].pc = "done"
    /\ task' = [task EXCEPT ![Append(p, 1)].pc = "todo"]
    /\ UNCHANGED <<pts, leaf, psl, nodes>>

Joined(p) ==
    /\ task[p].pc = "wait"
    /\ task[Append(p, 1)].pc = "done"
    /\ JoinMode = "none" \/ task[Append(p, 0)].pc = "done"
    /\ task' = [task EXCEPT ![p].pc = "push"]
    /\ UNCHANGED <<pts, leaf, psl, nodes>>

NodeOf(p) ==
    LET t == task[p]
        at(q) == IF task[q].at < 0 THEN 0 ELSE task[q].at
    IN IF t.m < 0 THEN [k |-> "L", pts |-> ListOf(t.S), lo |-> t.lo, hi |-> t.hi]
       ELSE [k |-> "S", dim |-> Axis0(p), pt |-> t.m, l |-> at(Append(p, 0)), r |-> at(Append(p, 1)),
             lo |-> t.lo, hi |-> t.hi]

Locked(p) ==
    /\ PushMode = "locked" /\ task[p].pc = "push"
    /\ task' = [task EXCEPT ![p].pc = "done", ![p].at = Len(nodes)]
    /\ nodes' = Append(nodes, NodeOf(p))
    /\ UNCHANGED <<pts, leaf, psl>>
ReadPlace(p) ==
    /\ PushMode = "racy" /\ task[p].pc = "push"
    /\ task' = [task EXCEPT ![p].pc = "placed", ![p].at = Len(nodes)]
    /\ UNCHANGED <<pts, leaf, psl, nodes>>
PushLate(p) ==
    /\ task[p].pc = "placed"
    /\ task' = [task EXCEPT ![p].pc = "done"]
    /\ nodes' = Append(nodes, NodeOf(p))
    /\ UNCHANGED <<pts, leaf, psl>>

Step(p) == Start(p) \/ Second(p) \/ Joined(p) \/ Locked(p) \/ ReadPlace(p) \/ PushLate(p)
Next == \E p \in DOMAIN task : Step(p)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
=============================================================================
