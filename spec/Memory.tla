------------------------------- MODULE Memory -------------------------------
(***************************************************************************)
(* Who holds memory when: trees hold theirs from a successful build until  *)
(* they are dropped, a call holds its output block and one container per   *)
(* worker that took a row, answers belong to the caller.  mem counts the   *)
(* pieces as they are allocated and freed; at rest it must be what is      *)
(* still held, whatever was refused on the way.                            *)
(*                                                                         *)
(* Variants that must fail: Err "forgets" (a refused call leaves its       *)
(* output behind), Build "forgets" (a refused build leaves its nodes),     *)
(* End "one" (only one of the containers is freed).                        *)
(***************************************************************************)
EXTENDS Integers, FiniteSets

CONSTANTS Trees, Workers, Rows, MaxAnswers, Err, Build, End

VARIABLES built,      \* live trees
          building,   \* {} or {t}: a build that is going on
          call,       \* [on, left, bad, err]
          got,        \* workers that have a container
          answers,    \* answers the caller still has
          mem         \* pieces in use
vars == <<built, building, call, got, answers, mem>>

Idle == [on |-> FALSE, left |-> 0, bad |-> 0, err |-> FALSE]
Init == built = {} /\ building = {} /\ call = Idle /\ got = {} /\ answers = 0 /\ mem = 0

Start(t) == /\ t \notin built /\ building = {} /\ ~call.on
            /\ building' = {t} /\ mem' = mem + 1
            /\ UNCHANGED <<built, call, got, answers>>
Accept(t) == /\ t \in building
             /\ built' = built \cup {t} /\ building' = {}
             /\ UNCHANGED <<call, got, answers, mem>>
Refuse(t) == /\ t \in building
             /\ building' = {} /\ mem' = IF Build = "forgets" THEN mem ELSE mem - 1
             /\ UNCHANGED <<built, call, got, answers>>
DropTree(t) == /\ t \in built /\ ~call.on
               /\ built' = built \ {t} /\ mem' = mem - 1
               /\ UNCHANGED <<building, call, got, answers>>

\* bad: the row that is invalid, 0 for none
Begin(t, bad) == /\ t \in built /\ building = {} /\ ~call.on
                 /\ call' = [on |-> TRUE, left |-> Rows, bad |-> bad, err |-> FALSE]
                 /\ mem' = mem + 1
                 /\ UNCHANGED <<built, building, got, answers>>
Row(w) == /\ call.on /\ call.left > 0 /\ ~call.err
          /\ got' = got \cup {w}
          /\ mem' = IF w \in got THEN mem ELSE mem + 1
          /\ call' = [call EXCEPT !.left = @ - 1, !.err = (call.left = call.bad)]
          /\ UNCHANGED <<built, building, answers>>
Return == /\ call.on /\ (call.left = 0 \/ call.err) /\ answers < MaxAnswers
          /\ call' = Idle /\ got' = {}
          /\ LET freed == IF End = "one" THEN (IF got = {} THEN 0 ELSE 1) ELSE Cardinality(got)
             IN IF call.err THEN /\ mem' = mem - freed - (IF Err = "forgets" THEN 0 ELSE 1)
                                 /\ UNCHANGED answers
                            ELSE /\ mem' = mem - freed
                                 /\ answers' = answers + 1
          /\ UNCHANGED <<built, building>>
Discard == answers > 0 /\ answers' = answers - 1 /\ mem' = mem - 1 /\ UNCHANGED <<built, building, call, got>>

Next == \/ \E t \in Trees : Start(t) \/ Accept(t) \/ Refuse(t) \/ DropTree(t) \/ \E b \in 0..Rows : Begin(t, b)
        \/ \E w \in Workers : Row(w)
        \/ Return \/ Discard
Spec == Init /\ [][Next]_vars

AtRest == (~call.on /\ building = {}) => mem = Cardinality(built) + answers
Bounded == mem <= Cardinality(built) + answers + 1 + Cardinality(Workers)
=============================================================================
