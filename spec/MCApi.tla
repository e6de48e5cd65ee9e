-------------------------------- MODULE MCApi --------------------------------
(***************************************************************************)
(* The whole contract, explored: every sequence of calls (valid, refused,  *)
(* on fresh, boxed and used-up trees) over small representatives of the    *)
(* kinds of arguments.  Checked here: no call is left without an allowed   *)
(* outcome, an accepted box fits, a refused or answered query changes      *)
(* nothing, and what an answer may be depends on the tree alone, not on    *)
(* what was asked before.  The sequences are also the histories replayed   *)
(* on the real library, each kind of argument filled in at random there.   *)
(***************************************************************************)
EXTENDS Api, Json

CONSTANTS MaxLen, Datas, Boxes, Asks

VARIABLE hist
vars == <<trees, hist>>

(* representatives of the kinds of data, boxes and questions *)
Plain == << <<0, 2>>, <<3, 1>>, <<1, 1>>, <<1, 1>> >>
DataPts(c) == CASE c = "empty" -> <<>>
                [] c = "neg" -> << <<0, 2>>, <<-1, 1>>, <<1, 1>> >>
                [] c = "one" -> << <<2, 1>> >>
                [] OTHER -> Plain
DataBad(c) == c \in {"nan", "inf"}
BoxLen(c) == CASE c = "tight" -> <<3, 2>>
               [] c = "loose" -> <<4, 6>>
               [] c = "small" -> <<4, 0>>
               [] OTHER -> <<4, 4>>
BoxBad(c) == IF c \in {"nan", "inf", "-inf"} THEN {<<1, c>>} ELSE {}
AskBad(a) == a.bad
Q == <<1, 2>>
Qlist == << <<1, 2>>, <<0, 0>>, <<3, 1>> >>

(* one right answer, worked out naively: all entries, nearest first *)
EntriesOf(t, q) ==
    LET n == Len(t.pts)
        q2 == IF Periodic(t) THEN Shifted(q, t.box) ELSE q
        ims == {[i \in 1..Len(q) |-> IF m[i] THEN q2[i] ELSE q[i]] :
                  m \in IF Periodic(t) THEN [1..Len(q) -> BOOLEAN] ELSE {[i \in 1..Len(q) |-> FALSE]}}
    IN SetToSortSeq({<<D2(im, t.pts[i]), i - 1, im>> : i \in 1..n, im \in ims},
                    LAMBDA x, y : x[1] < y[1] \/ (x[1] = y[1] /\ x[2] < y[2]))
Naive(t, q, k) == SubSeq(EntriesOf(t, q), 1, Rows(t, k))
Ds(r) == [j \in 1..Len(r) |-> r[j][1]]
Is(r) == [j \in 1..Len(r) |-> r[j][2]]
Flat(f(_), n) == FlattenSeq([i \in 1..n |-> f(i)])

Results == {"ok", "ZeroLength", "Invalid", "Negative", "InvalidBox", "SmallBox", "InvalidAxis"}
Log(e) == hist' = Append(hist, e)

New(s, c) ==
    \E res \in Results :
      /\ Build(s, DataPts(c), 1, DataBad(c), res, NodeCount(Len(DataPts(c)), 1))
      /\ Log([op |-> "new", s |-> s, data |-> c])
Box(s, c) ==
    \E res \in Results :
      /\ SetBox(s, BoxLen(c), BoxBad(c), res)
      /\ Log([op |-> "box", s |-> s, box |-> c])
Ask(s, a) ==
    \E res \in Results :
      /\ trees[s].live
      /\ LET t == trees[s]
             one == Naive(t, Q, 1)
             rk == Naive(t, Q, a.k)
             all == [i \in 1..3 |-> Naive(t, Qlist[i], a.k)]
         IN CASE a.op = "q1" -> Query1(s, Q, a.bad, res, one[1][1], one[1][2], <<>>, FALSE)
              [] a.op = "qk" -> QueryK(s, Q, a.k, a.bad, res, Ds(rk), Is(rk), <<>>, FALSE)
              [] a.op = "batch" -> Batch(s, Qlist, a.k, a.bad, res,
                                         FlattenSeq([i \in 1..3 |-> Ds(all[i])]),
                                         FlattenSeq([i \in 1..3 |-> Is(all[i])]))
              [] a.op = "axis" ->
                   LET x == IF a.ax \in 0..1 THEN a.ax + 1 ELSE 1
                       as(r) == [j \in 1..Len(r) |-> Sq(r[j][3][x] - t.pts[r[j][2] + 1][x])]
                       bs(r) == [j \in 1..Len(r) |-> r[j][1] - as(r)[j]]
                   IN Axis(s, Qlist, a.k, a.ax, a.bad, res,
                           FlattenSeq([i \in 1..3 |-> as(all[i])]),
                           FlattenSeq([i \in 1..3 |-> bs(all[i])]),
                           FlattenSeq([i \in 1..3 |-> Is(all[i])]), TRUE)
      /\ Log([op |-> "ask", s |-> s, ask |-> a, res |-> res])
Look(s) == trees[s].live /\ Unchanged /\ Log([op |-> "dump", s |-> s])
Gone(s) == DropTree(s) /\ Log([op |-> "drop", s |-> s])

Init == ApiInit /\ hist = <<>>
Next == /\ Len(hist) < MaxLen
        /\ \E s \in Slots :
             \/ \E c \in Datas : New(s, c)
             \/ \E c \in Boxes : Box(s, c)
             \/ \E a \in Asks : Ask(s, a)
             \/ Look(s)
             \/ Gone(s)
Spec == Init /\ [][Next]_vars

\* kinds of questions: every operation, some with an invalid component, an axis that
\* does not exist, no neighbours, more than there are
Question(op, k, bad, ax) == [op |-> op, k |-> k, bad |-> bad, ax |-> ax]
AllAsks ==
    {Question(op, k, bad, 0) : op \in {"q1", "qk", "batch", "axis"}, k \in {2}, bad \in BOOLEAN}
    \cup {Question(op, k, FALSE, 1) : op \in {"qk", "batch", "axis"}, k \in {0, 9}}
    \cup {Question("axis", 2, bad, ax) : bad \in BOOLEAN, ax \in {2, -1}}
FewAsks == {Question("q1", 1, FALSE, 0), Question("qk", 2, FALSE, 0), Question("batch", 2, TRUE, 0),
            Question("axis", 2, FALSE, 1)}

-----------------------------------------------------------------------------
Live == {s \in Slots : trees[s].live}
(* every request has an outcome: nothing valid is refused, nothing is without an answer *)
Going == Len(hist) < MaxLen
TotalNew == Going => \A s \in Slots, c \in Datas : ENABLED New(s, c)
TotalBox == Going => \A s \in Live, c \in Boxes : ENABLED Box(s, c)
TotalAsk == Going => \A s \in Live, a \in Asks : ENABLED Ask(s, a)
NoWrongBox ==
    \A s \in Live : trees[s].box # <<>> =>
       \A p \in Range(trees[s].pts), i \in 1..2 : 0 <= p[i] /\ p[i] <= trees[s].box[i]
NoBadData == \A s \in Live : Len(trees[s].pts) > 0
QueriesReadOnly ==
    [][\A s \in Slots : \A a \in Asks : Ask(s, a) => trees' = trees]_vars
OthersUntouched ==
    [][\A s \in Slots : (hist' # hist /\ hist'[Len(hist')].s # s) => trees'[s] = trees[s]]_vars

(* histories that end with a question, with some tree alive *)
Emit == (Len(hist) = MaxLen /\ hist[MaxLen].op = "ask") =>
            PrintT("@@" \o ToJson([i \in 1..MaxLen |-> hist[i]]))
View == trees
=============================================================================
