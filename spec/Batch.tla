-------------------------------- MODULE Batch --------------------------------
(***************************************************************************)
(* A batch query as the implementation performs it: the rows are handed to *)
(* the workers of a pool in any order (work stealing); each worker checks  *)
(* its row's query, fills a container with the row's neighbours in several *)
(* steps, writes it to the row's block of the shared, uninitialised output *)
(* and empties the container.  In the "with" operation the containers      *)
(* belong to workers and are reused from row to row.  An invalid row stops *)
(* the operation: rows not yet started are skipped and an error is          *)
(* returned; the output is then thrown away.                               *)
(*                                                                         *)
(* The k nearest entries of row r are named <<r, 1>>, ..., <<r, K>>.        *)
(*                                                                         *)
(* Variants that must fail: Buffers "one" (all workers share one           *)
(* container), Empty "no" (containers are not emptied), Nested "yes" (a    *)
(* worker may turn to another row in the middle of one), Errors "lost"     *)
(* (an error does not reach the caller), Place "worker" (rows are written  *)
(* in the order of their completion).                                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS R, K, Workers, Buffers, Empty, Nested, Errors, Place

VARIABLES bad,      \* rows with an invalid query
          left,     \* rows not yet started
          at,       \* at[w]: stack of rows worker w is busy with (innermost last)
          step,     \* step[r]: entries collected for row r so far; -1 not started
          buf,      \* the containers
          out,      \* out[i]: entry written to place i, or <<0, 0>>
          done, err, res
vars == <<bad, left, at, step, buf, out, done, err, res>>

RowsSet == 1..R
Entry(r, j) == <<r, j>>
BufOf(w) == CASE Buffers = "one" -> 1 [] Buffers = "worker" -> w
Init ==
    /\ bad \in SUBSET RowsSet
    /\ left = RowsSet /\ at = [w \in Workers |-> <<>>] /\ step = [r \in RowsSet |-> -1]
    /\ buf = [w \in Workers |-> <<>>]
    /\ out = [i \in 1..(R * K) |-> <<0, 0>>]
    /\ done = {} /\ err = FALSE /\ res = "none"

Top(w) == at[w][Len(at[w])]
Take(w) ==
    /\ res = "none" /\ ~err /\ left # {}
    /\ at[w] = <<>> \/ (Nested = "yes" /\ Len(at[w]) < 2)
    /\ \E r \in left :
         /\ left' = left \ {r}
         /\ IF r \in bad THEN /\ err' = (Errors = "kept")
                              /\ done' = done \cup {r}
                              /\ UNCHANGED <<at, step, buf>>
            ELSE /\ at' = [at EXCEPT ![w] = Append(@, r)]
                 /\ step' = [step EXCEPT ![r] = 0]
                 \* a buffer of its own starts empty
                 /\ buf' = IF Buffers = "row" THEN [buf EXCEPT ![w] = <<>>] ELSE buf
                 /\ UNCHANGED <<err, done>>
    /\ UNCHANGED <<bad, out, res>>

B(w) == IF Buffers = "row" THEN w ELSE BufOf(w)
Collect(w) ==
    /\ at[w] # <<>> /\ step[Top(w)] < K
    /\ LET r == Top(w)
       IN /\ buf' = [buf EXCEPT ![B(w)] = Append(@, Entry(r, step[r] + 1))]
          /\ step' = [step EXCEPT ![r] = @ + 1]
    /\ UNCHANGED <<bad, left, at, out, done, err, res>>

Block(r) == IF Place = "row" THEN (r - 1) * K ELSE Cardinality(done \ bad) * K
Write(w) ==
    /\ at[w] # <<>> /\ step[Top(w)] = K
    /\ LET r == Top(w)
           b == buf[B(w)]
       IN /\ out' = [i \in 1..(R * K) |->
                       IF i > Block(r) /\ i - Block(r) <= Len(b) THEN b[i - Block(r)] ELSE out[i]]
          /\ done' = done \cup {r}
          /\ buf' = IF Empty = "yes" THEN [buf EXCEPT ![B(w)] = <<>>] ELSE buf
          /\ at' = [at EXCEPT ![w] = SubSeq(@, 1, Len(@) - 1)]
    /\ UNCHANGED <<bad, left, step, err, res>>

Return ==
    /\ res = "none" /\ \A w \in Workers : at[w] = <<>>
    /\ err \/ left = {}
    /\ res' = IF err THEN "Invalid" ELSE "ok"
    /\ UNCHANGED <<bad, left, at, step, buf, out, done, err>>

Next == (\E w \in Workers : Take(w) \/ Collect(w) \/ Write(w)) \/ Return
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Contract ==
    /\ res = "ok" => /\ bad = {}
                     /\ \A r \in RowsSet, j \in 1..K : out[(r - 1) * K + j] = Entry(r, j)
    /\ res = "Invalid" => bad # {}
(* no two rows are ever in one container *)
OneRow == \A w \in Workers : \A i, j \in 1..Len(buf[w]) : buf[w][i][1] = buf[w][j][1]
Returns == <>(res # "none")
=============================================================================
