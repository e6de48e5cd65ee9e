------------------------------ MODULE MCPyLife ------------------------------
(***************************************************************************)
(* Design check of the bindings' lifetime rules, and generator of the      *)
(* histories that are replayed in Python.  mem says which array's data a   *)
(* piece of memory holds (freed memory is handed out again by Churn); a    *)
(* tree remembers the piece it was built on.  Owns = FALSE is the design   *)
(* the bindings had before the repair: trees only borrow.                  *)
(***************************************************************************)
EXTENDS PyLife, Sequences, TLC, Json

CONSTANTS Arrs, Trees, MaxLen, Owns

VARIABLES real,     \* arrays whose memory is allocated (by reference counts of the implementation)
          addr,     \* addr[s]: array whose memory tree s reads, or -1
          hist

vars == <<named, held, real, addr, hist>>

Init == LifeInit(Trees) /\ real = {} /\ addr = [s \in Trees |-> -1] /\ hist = <<>>

Log(e) == hist' = Append(hist, e)
\* memory stays allocated as long as something counts as a reference
Refs(nm, hd) == {a \in Arrs : a \in nm \/ (Owns /\ \E s \in Trees : hd[s] = a)}
Sweep == real' = Refs(named', held')

New(a) == MkArr(a) /\ Sweep /\ Log([op |-> "arr", a |-> a]) /\ UNCHANGED addr
Del(a) == Unref(a) /\ Sweep /\ Log([op |-> "unref", a |-> a]) /\ UNCHANGED addr
Build(s, a) == TakeHold(s, a) /\ Sweep /\ Log([op |-> "tree", s |-> s, a |-> a]) /\ addr' = [addr EXCEPT ![s] = a]
DropT(s) == held[s] # -1 /\ Release(s) /\ Sweep /\ Log([op |-> "drop", s |-> s]) /\ addr' = [addr EXCEPT ![s] = -1]
Churn == LifeSame /\ real' = real /\ Log([op |-> "churn"]) /\ UNCHANGED addr
Query(s) == held[s] # -1 /\ LifeSame /\ UNCHANGED <<real, addr>> /\ Log([op |-> "query", s |-> s])

Next == /\ Len(hist) < MaxLen
        /\ \/ \E a \in Arrs : New(a) \/ Del(a)
           \/ \E s \in Trees, a \in Arrs : Build(s, a)
           \/ \E s \in Trees : DropT(s) \/ Query(s)
           \/ Churn
Spec == Init /\ [][Next]_vars

\* a live tree reads memory that is still its array's
NoDangling == \A s \in Trees : addr[s] # -1 => addr[s] \in real
\* nothing is kept longer than it is reachable
NoLeak == \A a \in real : Alive(a)
TypeOK == named \subseteq Arrs /\ \A s \in Trees : held[s] \in Arrs \cup {-1}

\* histories worth replaying end with a query after something happened to the array
Queries == {i \in 1..Len(hist) : hist[i].op = "query"}
Emit == (Len(hist) = MaxLen /\ hist[MaxLen].op = "query") => PrintT("@@" \o ToJson(hist))
View == <<named, held, real, addr>>
=============================================================================
