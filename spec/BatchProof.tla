----------------------------- MODULE BatchProof -----------------------------
(***************************************************************************)
(* Batch as it is implemented, for every number of rows, of entries per    *)
(* row and of workers, and every schedule: the contract of Batch holds     *)
(* (TLAPS proof; TLC checks the same for a few rows and workers, and the   *)
(* variants that must fail).                                               *)
(***************************************************************************)
EXTENDS Batch, TLAPS

ASSUME AsIs == /\ R \in Nat /\ K \in Nat
               /\ Buffers = "worker" /\ Empty = "yes" /\ Nested = "no"
               /\ Errors = "kept" /\ Place = "row"

Entries == RowsSet \X Int
Full(r, n) == [j \in 1..n |-> <<r, j>>]

Inv ==
    /\ bad \in SUBSET RowsSet /\ left \in SUBSET RowsSet /\ done \in SUBSET RowsSet
    /\ at \in [Workers -> Seq(RowsSet)]
    /\ step \in [RowsSet -> Int]
    /\ buf \in [Workers -> Seq(Entries)]
    /\ DOMAIN out = 1..(R * K)
    /\ err \in BOOLEAN /\ res \in {"none", "ok", "Invalid"}
    /\ \A w \in Workers : at[w] = <<>> \/ \E r \in RowsSet : at[w] = <<r>>
    /\ \A w \in Workers : at[w] = <<>> => buf[w] = <<>>
    /\ \A w \in Workers, r \in RowsSet : at[w] = <<r>> =>
          r \notin bad /\ r \notin left /\ r \notin done /\ step[r] \in 0..K /\ buf[w] = Full(r, step[r])
    /\ \A v, w \in Workers, r \in RowsSet : at[v] = <<r>> /\ at[w] = <<r>> => v = w
    /\ \A r \in RowsSet : r \in left \/ r \in done \/ \E w \in Workers : at[w] = <<r>>
    /\ \A r \in done : r \notin bad => \A j \in 1..K : out[(r - 1) * K + j] = <<r, j>>
    /\ \A r \in done : r \in bad => err
    /\ left \cap done = {}
    /\ err => bad # {}
    /\ res # "none" => \A w \in Workers : at[w] = <<>>
    /\ res = "ok" => left = {} /\ ~err
    /\ res = "Invalid" => err

LEMMA One == ASSUME NEW S, NEW r \in S
             PROVE /\ <<r>> \in Seq(S) /\ <<>> \in Seq(S) /\ <<r>> # <<>> /\ Len(<<r>>) = 1 /\ <<r>>[1] = r
                   /\ Append(<<>>, r) = <<r>> /\ SubSeq(<<r>>, 1, 0) = <<>>
  OBVIOUS

LEMMA Same == ASSUME NEW r, NEW s, <<r>> = <<s>> PROVE r = s
  OBVIOUS

LEMMA Longer == ASSUME NEW r \in RowsSet, NEW n \in Nat
                PROVE /\ Full(r, n) \in Seq(Entries) /\ Len(Full(r, n)) = n
                      /\ Append(Full(r, n), <<r, n + 1>>) = Full(r, n + 1)
                      /\ Full(r, 0) = <<>>
  <1>1. Full(r, n) \in [1..n -> Entries]
    <2>1. ASSUME NEW j \in 1..n PROVE <<r, j>> \in Entries BY DEF Entries
    <2> QED BY <2>1 DEF Full
  <1>2. Full(r, n) \in Seq(Entries) /\ Len(Full(r, n)) = n BY <1>1
  <1>3. Append(Full(r, n), <<r, n + 1>>) = Full(r, n + 1)
    <2>1. <<r, n + 1>> \in Entries BY DEF Entries
    <2>2. Full(r, n + 1) \in [1..(n + 1) -> Entries]
      <3>1. ASSUME NEW j \in 1..(n + 1) PROVE <<r, j>> \in Entries BY DEF Entries
      <3> QED BY <3>1 DEF Full
    <2> DEFINE X == Append(Full(r, n), <<r, n + 1>>)
    <2>3. X \in Seq(Entries) /\ Len(X) = n + 1 BY <1>2, <2>1
    <2>4. Full(r, n + 1) \in Seq(Entries) /\ Len(Full(r, n + 1)) = n + 1 BY <2>2
    <2>5. ASSUME NEW j \in 1..(n + 1) PROVE X[j] = Full(r, n + 1)[j]
      <3>1. Full(r, n + 1)[j] = <<r, j>> BY DEF Full
      <3>2. CASE j = n + 1 BY <1>2, <2>1, <3>1, <3>2
      <3>3. CASE j # n + 1
        <4>1. j \in 1..n BY <3>3
        <4>2. X[j] = Full(r, n)[j] BY <1>2, <2>1, <4>1
        <4>3. Full(r, n)[j] = <<r, j>> BY <4>1 DEF Full
        <4> QED BY <4>2, <4>3, <3>1
      <3> QED BY <3>2, <3>3
    <2> HIDE DEF X
    <2>6. X = Full(r, n + 1) BY <2>3, <2>4, <2>5
    <2> QED BY <2>6 DEF X
  <1>4. Full(r, 0) = <<>> BY DEF Full
  <1> QED BY <1>2, <1>3, <1>4

(* the blocks of two rows have no place in common *)
LEMMA Apart == ASSUME NEW r \in RowsSet, NEW s \in RowsSet, NEW i \in 1..K, NEW j \in 1..K
               PROVE /\ (r - 1) * K + i \in 1..(R * K)
                     /\ r # s => ~((s - 1) * K + j > (r - 1) * K /\ (s - 1) * K + j - (r - 1) * K <= K)
  <1>0. r \in 1..R /\ s \in 1..R /\ R \in Nat /\ K \in Nat /\ i \in Nat /\ j \in Nat BY AsIs DEF RowsSet
  <1>1. \A a, c \in Nat : a <= c => a * K <= c * K
    <2> TAKE a, c \in Nat
    <2>1. ASSUME a <= c PROVE a * K <= c * K
      <3>1. (c - a) * K >= 0 BY <2>1, <1>0
      <3>2. (c - a) * K = c * K - a * K BY <1>0
      <3>3. a * K \in Int /\ c * K \in Int BY <1>0
      <3> QED BY <3>1, <3>2, <3>3
    <2> QED BY <2>1
  <1>2. (r - 1) * K + i \in 1..(R * K)
    <2>1. (r - 1) * K >= 0 BY <1>0
    <2>2. r * K <= R * K BY <1>0, <1>1
    <2>3. r * K = (r - 1) * K + K BY <1>0
    <2>4. (r - 1) * K \in Int /\ R * K \in Int BY <1>0
    <2> QED BY <2>1, <2>2, <2>3, <2>4, <1>0
  <1>3. ASSUME r # s PROVE ~((s - 1) * K + j > (r - 1) * K /\ (s - 1) * K + j - (r - 1) * K <= K)
    <2> DEFINE x == (r - 1) * K
    <2> DEFINE y == (s - 1) * K
    <2>0. x \in Int /\ y \in Int BY <1>0
    <2>1. CASE s < r
      <3>1. s - 1 \in Nat /\ r - 1 \in Nat /\ s \in Nat /\ s <= r - 1 BY <1>0, <2>1
      <3>2. s * K <= x BY <3>1, <1>1
      <3>3. s * K = y + K BY <1>0
      <3> HIDE DEF x, y
      <3>4. ~(y + j > x) BY <3>2, <3>3, <2>0, <1>0
      <3> QED BY <3>4 DEF x, y
    <2>2. CASE s > r
      <3>1. s - 1 \in Nat /\ r \in Nat /\ r <= s - 1 BY <1>0, <2>2
      <3>2. r * K <= y BY <3>1, <1>1
      <3>3. r * K = x + K BY <1>0
      <3> QED BY <3>2, <3>3, <2>0, <1>0
    <2> QED BY <1>3, <2>1, <2>2, <1>0
  <1> QED BY <1>2, <1>3

LEMMA Starts == Init => Inv
  BY AsIs DEF Init, Inv, RowsSet

LEMMA Takes == ASSUME Inv, NEW w \in Workers, Take(w) PROVE Inv'
  <1>0. res = "none" /\ ~err /\ at[w] = <<>> BY AsIs DEF Take
  <1>1. PICK r \in left :
         /\ left' = left \ {r}
         /\ IF r \in bad THEN /\ err' = TRUE /\ done' = done \cup {r} /\ UNCHANGED <<at, step, buf>>
            ELSE /\ at' = [at EXCEPT ![w] = Append(@, r)]
                 /\ step' = [step EXCEPT ![r] = 0]
                 /\ buf' = buf /\ UNCHANGED <<err, done>>
         /\ UNCHANGED <<bad, out, res>> BY AsIs DEF Take
  <1>2. r \in RowsSet /\ r \notin done BY DEF Inv
  <1>3. CASE r \in bad
    <2>1. UNCHANGED <<at, step, buf, bad, out, res>> /\ err' = TRUE /\ done' = done \cup {r} /\ left' = left \ {r} BY <1>1, <1>3
    <2>2. \A v \in Workers : at[v] # <<r>> BY <1>2, <1>1 DEF Inv
    <2> QED BY <2>1, <2>2, <1>0, <1>2, <1>3 DEF Inv
  <1>4. CASE r \notin bad
    <2>1. /\ at' = [at EXCEPT ![w] = <<r>>] /\ step' = [step EXCEPT ![r] = 0]
          /\ UNCHANGED <<buf, err, done, bad, out, res>> /\ left' = left \ {r}
      <3>1. Append(<<>>, r) = <<r>> BY One
      <3>2. at' = [at EXCEPT ![w] = Append(@, r)] BY <1>1, <1>4
      <3>3. at' = [at EXCEPT ![w] = <<r>>] BY <3>1, <3>2, <1>0
      <3> QED BY <1>1, <1>4, <3>3
    <2>2. buf[w] = Full(r, 0) BY <1>0, <1>2, Longer DEF Inv
    <2>3. \A v \in Workers : at[v] # <<r>> BY <1>1, <1>2 DEF Inv
    <2>4. at'[w] = <<r>> /\ \A v \in Workers : v # w => at'[v] = at[v] BY <2>1 DEF Inv
    <2>5. step'[r] = 0 /\ \A s \in RowsSet : s # r => step'[s] = step[s] BY <2>1, <1>2 DEF Inv
    <2>6. <<r>> \in Seq(RowsSet) /\ <<r>> # <<>> BY <1>2, One
    <2>7. at' \in [Workers -> Seq(RowsSet)] BY <2>1, <2>6 DEF Inv
    <2>8. step' \in [RowsSet -> Int] BY <2>1 DEF Inv
    <2>9. \A v \in Workers : at'[v] = <<>> \/ \E s \in RowsSet : at'[v] = <<s>> BY <2>4, <1>2 DEF Inv
    <2>10. \A v \in Workers : at'[v] = <<>> => buf'[v] = <<>> BY <2>1, <2>4, <2>6 DEF Inv
    <2>11. ASSUME NEW v \in Workers, NEW s \in RowsSet, at'[v] = <<s>>
           PROVE s \notin bad' /\ s \notin left' /\ s \notin done' /\ step'[s] \in 0..K /\ buf'[v] = Full(s, step'[s])
      <3>1. CASE v = w
        <4>1. s = r BY <3>1, <2>4, <2>11, Same
        <4> QED BY <4>1, <3>1, <2>1, <2>2, <2>5, <1>2, <1>4, AsIs
      <3>2. CASE v # w
        <4>1. at[v] = <<s>> /\ s # r BY <3>2, <2>4, <2>11, <2>3
        <4> QED BY <4>1, <2>1, <2>5 DEF Inv
      <3> QED BY <3>1, <3>2
    <2>12. ASSUME NEW u \in Workers, NEW v \in Workers, NEW s \in RowsSet, at'[u] = <<s>>, at'[v] = <<s>> PROVE u = v
      <3>1. CASE u = w /\ v # w
        <4>1. s = r /\ at[v] = <<s>> BY <3>1, <2>4, <2>12, Same
        <4> QED BY <4>1, <2>3
      <3>2. CASE u # w /\ v = w
        <4>1. s = r /\ at[u] = <<s>> BY <3>2, <2>4, <2>12, Same
        <4> QED BY <4>1, <2>3
      <3>3. CASE u # w /\ v # w BY <3>3, <2>4, <2>12 DEF Inv
      <3> QED BY <3>1, <3>2, <3>3
    <2>13. ASSUME NEW s \in RowsSet PROVE s \in left' \/ s \in done' \/ \E v \in Workers : at'[v] = <<s>>
      <3>1. CASE s = r BY <3>1, <2>4
      <3>2. CASE s # r
        <4>1. s \in left \/ s \in done \/ \E v \in Workers : at[v] = <<s>> BY DEF Inv
        <4>2. ASSUME NEW v \in Workers, at[v] = <<s>> PROVE v # w
          <5>1. <<s>> # <<>> OBVIOUS
          <5> QED BY <4>2, <5>1, <1>0
        <4> QED BY <4>1, <4>2, <3>2, <2>1, <2>4
      <3> QED BY <3>1, <3>2
    <2> QED BY <2>1, <2>7, <2>8, <2>9, <2>10, <2>11, <2>12, <2>13, <1>0 DEF Inv
  <1> QED BY <1>3, <1>4

LEMMA Collects == ASSUME Inv, NEW w \in Workers, Collect(w) PROVE Inv'
  <1>1. PICK r \in RowsSet : at[w] = <<r>> BY DEF Inv, Collect
  <1>2. Top(w) = r BY <1>1, One DEF Top
  <1>3. /\ step[r] < K /\ buf' = [buf EXCEPT ![w] = Append(@, <<r, step[r] + 1>>)]
        /\ step' = [step EXCEPT ![r] = @ + 1] /\ UNCHANGED <<bad, left, at, out, done, err, res>>
    BY <1>2, AsIs DEF Collect, B, BufOf, Entry
  <1>4. step[r] \in 0..K /\ buf[w] = Full(r, step[r]) BY <1>1 DEF Inv
  <1>5. Append(buf[w], <<r, step[r] + 1>>) = Full(r, step[r] + 1) BY <1>4, Longer, AsIs
  <1>6. buf' = [buf EXCEPT ![w] = Full(r, step[r] + 1)] BY <1>3, <1>5
  <1>7. step'[r] = step[r] + 1 /\ \A s \in RowsSet : s # r => step'[s] = step[s] BY <1>3 DEF Inv
  <1>8. buf'[w] = Full(r, step'[r]) /\ \A v \in Workers : v # w => buf'[v] = buf[v] BY <1>6, <1>7 DEF Inv
  <1>9. buf' \in [Workers -> Seq(Entries)] /\ step' \in [RowsSet -> Int]
    <2>1. Full(r, step[r] + 1) \in Seq(Entries)
      <3>1. step[r] + 1 \in Nat BY <1>4, AsIs
      <3> QED BY <3>1, Longer
    <2> QED BY <2>1, <1>6, <1>3, <1>4, AsIs DEF Inv
  <1>10. ASSUME NEW v \in Workers, at[v] = <<>> PROVE buf'[v] = <<>>
    <2>1. v # w BY <1>10, <1>1, One
    <2> QED BY <2>1, <1>8, <1>10 DEF Inv
  <1>11. ASSUME NEW v \in Workers, NEW s \in RowsSet, at[v] = <<s>>
         PROVE s \notin bad /\ s \notin left /\ s \notin done /\ step'[s] \in 0..K /\ buf'[v] = Full(s, step'[s])
    <2>0. s \notin bad /\ s \notin left /\ s \notin done /\ step[s] \in 0..K /\ buf[v] = Full(s, step[s]) BY <1>11 DEF Inv
    <2>1. CASE v = w
      <3>1. s = r BY <2>1, <1>1, <1>11, Same
      <3>2. step'[s] \in 0..K BY <3>1, <1>3, <1>4, <1>7, AsIs
      <3> QED BY <2>0, <3>1, <3>2, <2>1, <1>8
    <2>2. CASE v # w
      <3>1. s # r BY <2>2, <1>1, <1>11 DEF Inv
      <3> QED BY <2>0, <3>1, <2>2, <1>7, <1>8
    <2> QED BY <2>1, <2>2
  <1> QED BY <1>3, <1>9, <1>10, <1>11 DEF Inv

LEMMA Writes == ASSUME Inv, NEW w \in Workers, Write(w) PROVE Inv'
  <1>1. PICK r \in RowsSet : at[w] = <<r>> BY DEF Inv, Write
  <1>2. Top(w) = r BY <1>1, One DEF Top
  <1>3. step[r] = K /\ buf[w] = Full(r, K) /\ r \notin bad /\ r \notin left /\ r \notin done /\ r \in RowsSet
    <2>1. step[Top(w)] = K BY DEF Write
    <2>2. step[r] = K BY <2>1, <1>2
    <2>3. buf[w] = Full(r, step[r]) /\ r \notin bad /\ r \notin left /\ r \notin done BY <1>1 DEF Inv
    <2> QED BY <2>2, <2>3
  <1>4. Len(Full(r, K)) = K BY Longer, AsIs
  <1>5. /\ out' = [i \in 1..(R * K) |-> IF i > (r - 1) * K /\ i - (r - 1) * K <= K THEN Full(r, K)[i - (r - 1) * K] ELSE out[i]]
        /\ done' = done \cup {r} /\ buf' = [buf EXCEPT ![w] = <<>>]
        /\ at' = [at EXCEPT ![w] = SubSeq(@, 1, Len(@) - 1)]
        /\ UNCHANGED <<bad, left, step, err, res>>
    <2>1. B(w) = w /\ Block(r) = (r - 1) * K BY AsIs DEF B, BufOf, Block
    <2> QED BY <2>1, <1>2, <1>3, <1>4, AsIs DEF Write
  <1>6. at' = [at EXCEPT ![w] = <<>>]
    <2>1. SubSeq(at[w], 1, Len(at[w]) - 1) = <<>>
      <3>1. Len(at[w]) - 1 = 0 BY <1>1, One
      <3> QED BY <3>1, <1>1, One
    <2> QED BY <2>1, <1>5
  <1>7. at'[w] = <<>> /\ \A v \in Workers : v # w => at'[v] = at[v] BY <1>6 DEF Inv
  <1>8. buf'[w] = <<>> /\ \A v \in Workers : v # w => buf'[v] = buf[v] BY <1>5 DEF Inv
  <1>9. /\ at' \in [Workers -> Seq(RowsSet)] /\ buf' \in [Workers -> Seq(Entries)]
        /\ done' \in SUBSET RowsSet /\ DOMAIN out' = 1..(R * K)
    <2>1. <<>> \in Seq(RowsSet) /\ <<>> \in Seq(Entries) OBVIOUS
    <2> QED BY <2>1, <1>5, <1>6 DEF Inv
  <1>10. ASSUME NEW v \in Workers PROVE at'[v] = <<>> \/ \E s \in RowsSet : at'[v] = <<s>>
    BY <1>7 DEF Inv
  <1>11. ASSUME NEW v \in Workers, at'[v] = <<>> PROVE buf'[v] = <<>>
    <2>1. CASE v = w BY <2>1, <1>8
    <2>2. CASE v # w BY <2>2, <1>7, <1>8, <1>11 DEF Inv
    <2> QED BY <2>1, <2>2
  <1>12. ASSUME NEW v \in Workers, NEW s \in RowsSet, at'[v] = <<s>>
         PROVE v # w /\ at[v] = <<s>> /\ s # r
    <2>1. v # w BY <1>12, <1>7, One
    <2>2. at[v] = <<s>> BY <2>1, <1>7, <1>12
    <2>3. s # r BY <2>1, <2>2, <1>1 DEF Inv
    <2> QED BY <2>1, <2>2, <2>3
  <1>13. ASSUME NEW v \in Workers, NEW s \in RowsSet, at'[v] = <<s>>
         PROVE s \notin bad' /\ s \notin left' /\ s \notin done' /\ step'[s] \in 0..K /\ buf'[v] = Full(s, step'[s])
    BY <1>12, <1>13, <1>5, <1>8 DEF Inv
  <1>14. ASSUME NEW u \in Workers, NEW v \in Workers, NEW s \in RowsSet, at'[u] = <<s>>, at'[v] = <<s>> PROVE u = v
    BY <1>12, <1>14 DEF Inv
  <1>15. ASSUME NEW s \in RowsSet PROVE s \in left' \/ s \in done' \/ \E v \in Workers : at'[v] = <<s>>
    <2>1. CASE s = r BY <2>1, <1>5
    <2>2. CASE s # r
      <3>1. s \in left \/ s \in done \/ \E v \in Workers : at[v] = <<s>> BY DEF Inv
      <3>2. ASSUME NEW v \in Workers, at[v] = <<s>> PROVE at'[v] = <<s>>
        <4>1. v # w BY <3>2, <1>1, <2>2, Same
        <4> QED BY <4>1, <1>7, <3>2
      <3> QED BY <3>1, <3>2, <1>5
    <2> QED BY <2>1, <2>2
  <1>16. ASSUME NEW s \in done', s \notin bad', NEW j \in 1..K PROVE out'[(s - 1) * K + j] = <<s, j>>
    <2> DEFINE i == (s - 1) * K + j
    <2>0. s \in RowsSet BY <1>9
    <2>1. i \in 1..(R * K) BY <2>0, Apart
    <2>2. out'[i] = IF i > (r - 1) * K /\ i - (r - 1) * K <= K THEN Full(r, K)[i - (r - 1) * K] ELSE out[i] BY <1>5, <2>1
    <2>3. CASE s = r
      <3> DEFINE x == (r - 1) * K
      <3>1. x \in Int /\ K \in Nat
        <4>1. r \in Int /\ K \in Nat BY AsIs, <1>3 DEF RowsSet
        <4> QED BY <4>1
      <3>2. i = x + j BY <2>3
      <3> HIDE DEF x, i
      <3>3. i > x /\ i - x <= K /\ i - x = j BY <3>1, <3>2
      <3>4. out'[i] = Full(r, K)[j] BY <2>2, <3>3 DEF x
      <3>5. Full(r, K)[j] = <<r, j>> BY DEF Full
      <3> QED BY <3>4, <3>5, <2>3 DEF i
    <2>4. CASE s # r
      <3>0. \A a, c \in RowsSet : a # c => ~((c - 1) * K + j > (a - 1) * K /\ (c - 1) * K + j - (a - 1) * K <= K)
        <4> TAKE a, c \in RowsSet
        <4> QED BY Apart
      <3>1. ~(i > (r - 1) * K /\ i - (r - 1) * K <= K) 
        <4>1. r \in RowsSet /\ s \in RowsSet /\ r # s BY <2>0, <2>4
        <4> DEFINE P(a, c) == ~((c - 1) * K + j > (a - 1) * K /\ (c - 1) * K + j - (a - 1) * K <= K)
        <4>2. \A a, c \in RowsSet : a # c => P(a, c) BY <3>0
        <4> HIDE DEF P
        <4>3. P(r, s) BY <4>1, <4>2
        <4> QED BY <4>3, <4>1, AsIs DEF P, RowsSet
      <3>2. s \in done /\ s \notin bad BY <2>4, <1>5, <1>16
      <3> QED BY <2>2, <3>1, <3>2 DEF Inv
    <2> QED BY <2>3, <2>4
  <1>17. ASSUME NEW s \in done', s \in bad' PROVE err' BY <1>17, <1>5, <1>3 DEF Inv
  <1>18. left' \cap done' = {} BY <1>3, <1>5 DEF Inv
  <1>19. res' # "none" => \A v \in Workers : at'[v] = <<>> BY <1>5, <1>7 DEF Inv
  <1> QED BY <1>5, <1>9, <1>10, <1>11, <1>13, <1>14, <1>15, <1>16, <1>17, <1>18, <1>19 DEF Inv

LEMMA Returning == ASSUME Inv, Return PROVE Inv'
  BY DEF Inv, Return

THEOREM Safe == Spec => []Inv
  <1>1. Inv /\ UNCHANGED vars => Inv' BY DEF Inv, vars
  <1>2. Inv /\ [Next]_vars => Inv' BY <1>1, Takes, Collects, Writes, Returning DEF Next
  <1> QED BY Starts, <1>2, PTL DEF Spec

THEOREM Right == Spec => []Contract
  <1>1. Inv => Contract
    <2> SUFFICES ASSUME Inv PROVE Contract OBVIOUS
    <2>1. ASSUME res = "ok" PROVE bad = {} /\ \A r \in RowsSet, j \in 1..K : out[(r - 1) * K + j] = Entry(r, j)
      <3>1. left = {} /\ ~err /\ \A w \in Workers : at[w] = <<>> BY <2>1 DEF Inv
      <3>2. ASSUME NEW r \in RowsSet PROVE r \in done /\ r \notin bad
        <4>1. \A w \in Workers : at[w] # <<r>> BY <3>1, One
        <4>2. r \in done BY <4>1, <3>1 DEF Inv
        <4> QED BY <4>2, <3>1 DEF Inv
      <3>3. bad = {} BY <3>2 DEF Inv
      <3> QED BY <3>2, <3>3 DEF Inv, Entry
    <2>2. res = "Invalid" => bad # {} BY DEF Inv
    <2> QED BY <2>1, <2>2 DEF Contract
  <1> QED BY <1>1, Safe, PTL

THEOREM Alone == Spec => []OneRow
  <1>1. Inv => OneRow
    <2> SUFFICES ASSUME Inv, NEW w \in Workers, NEW i \in 1..Len(buf[w]), NEW j \in 1..Len(buf[w])
                 PROVE buf[w][i][1] = buf[w][j][1] BY DEF OneRow
    <2>1. CASE at[w] = <<>>
      <3>1. buf[w] = <<>> BY <2>1 DEF Inv
      <3>2. Len(buf[w]) = 0 BY <3>1
      <3> QED BY <3>2
    <2>2. CASE at[w] # <<>>
      <3>1. PICK r \in RowsSet : at[w] = <<r>> BY <2>2 DEF Inv
      <3>2. buf[w] = Full(r, step[r]) /\ step[r] \in 0..K BY <3>1 DEF Inv
      <3>3. Len(buf[w]) = step[r] BY <3>2, Longer, AsIs
      <3>4. buf[w][i] = <<r, i>> /\ buf[w][j] = <<r, j>> BY <3>2, <3>3 DEF Full
      <3> QED BY <3>4
    <2> QED BY <2>1, <2>2
  <1> QED BY <1>1, Safe, PTL
=============================================================================
