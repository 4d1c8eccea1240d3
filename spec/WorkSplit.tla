------------------------------ MODULE WorkSplit ------------------------------
(* Dividing n items among k slices and working on the slices with several    *)
(* workers: consecutive ranges covering every item once, sizes differing by  *)
(* at most one; whichever worker takes which slice and however their steps   *)
(* interleave, every item is processed once and the partial sums add up.     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, FiniteSetsExt
\* ---- requirements on a division (items 0..n-1, slices <<from, to>>) --------
Size(s) == s[2] - s[1]
Covers(q, n) == /\ Len(q) > 0 /\ q[1][1] = 0 /\ q[Len(q)][2] = n
                /\ \A j \in 1..Len(q) : q[j][1] <= q[j][2]
                /\ \A j \in 1..(Len(q) - 1) : q[j][2] = q[j + 1][1]
Balanced(q) == LET sizes == {Size(q[j]) : j \in DOMAIN q} IN \A a, b \in sizes : a - 1 <= b
\* ---- the division of the code --------------------------------------------
Quota(n, k, j) == n \div k + (IF j <= n % k THEN 1 ELSE 0)
Start(n, k, j) == LET m == n % k IN (j - 1) * (n \div k) + (IF j - 1 < m THEN j - 1 ELSE m)
Divide(n, k) == [j \in 1..k |-> <<Start(n, k, j), Start(n, k, j) + Quota(n, k, j)>>]
ASSUME \A n \in 0..30, k \in 1..12 : LET q == Divide(n, k) IN Len(q) = k /\ Covers(q, n) /\ Balanced(q)
\* ---- workers on the slices ------------------------------------------------
CONSTANTS Ns, Ks, NWorkers
VARIABLES n, k, queue, at, cur, out, part
vars == <<n, k, queue, at, cur, out, part>>
Workers == 1..NWorkers
Value(i) == 2 * i + 1            \* what is computed for item i
Init == /\ n \in Ns /\ k \in Ks /\ queue = [j \in 1..k |-> j]
        /\ at = [w \in Workers |-> 0] /\ cur = [w \in Workers |-> 0]
        /\ out = [i \in 0..(n - 1) |-> 0] /\ part = [j \in 1..k |-> 0]
Take(w) == /\ cur[w] = 0 /\ queue # <<>>
           /\ cur' = [cur EXCEPT ![w] = Head(queue)] /\ queue' = Tail(queue)
           /\ at' = [at EXCEPT ![w] = Divide(n, k)[Head(queue)][1]]
           /\ UNCHANGED <<n, k, out, part>>
Work(w) == /\ cur[w] # 0
           /\ IF at[w] < Divide(n, k)[cur[w]][2]
              THEN /\ out' = [out EXCEPT ![at[w]] = @ + Value(at[w])]
                   /\ part' = [part EXCEPT ![cur[w]] = @ + Value(at[w])]
                   /\ at' = [at EXCEPT ![w] = @ + 1] /\ UNCHANGED cur
              ELSE cur' = [cur EXCEPT ![w] = 0] /\ UNCHANGED <<at, out, part>>
           /\ UNCHANGED <<n, k, queue>>
Next == \E w \in Workers : Take(w) \/ Work(w)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Done == queue = <<>> /\ \A w \in Workers : cur[w] = 0
Sum(f) == FoldSet(LAMBDA x, a : a + f[x], 0, DOMAIN f)
EachOnce == \A i \in DOMAIN out : out[i] \in {0, Value(i)}
ResultsAreThoseOfOneWorker == Done => /\ \A i \in DOMAIN out : out[i] = Value(i)
                                      /\ Sum(part) = Sum([i \in 0..(n - 1) |-> Value(i)])
Finishes == <>Done
=============================================================================
