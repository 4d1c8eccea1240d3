------------------------------- MODULE Sampling -------------------------------
(* Sampling of items 0..n-1 at a rate a/D, by one number out of 0..D-1 from   *)
(* the process-wide generator per item (C23).                                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt
SetOf(q) == {q[i] : i \in DOMAIN q}
Increasing(q) == \A i \in 1..(Len(q) - 1) : q[i] < q[i + 1]
IsSubset(q, n) == Increasing(q) /\ \A i \in DOMAIN q : q[i] \in 0..(n - 1)
All(n) == [i \in 1..n |-> i - 1]
\* ---- the selection --------------------------------------------------------
Select(u, a) == SelectSeq(All(Len(u)), LAMBDA i : u[i + 1] < a)
Pow(b, k) == FoldLeft(LAMBDA x, i : x * b, 1, [i \in 1..k |-> i])
\* how many of the D^n equally likely sequences of numbers give the subset S
Ways(n, a, D, size) == Pow(a, size) * Pow(D - a, n - size)
\* ---- the generator as shared state ----------------------------------------
CONSTANTS D, Seeds, MaxN, MaxOps
ASSUME \A n \in 0..MaxN, a \in 0..D : \A S \in SUBSET (0..(n - 1)) :
         Cardinality({u \in [1..n -> 0..(D - 1)] : SetOf(Select(u, a)) = S}) = Ways(n, a, D, Cardinality(S))
ASSUME \A n \in 0..MaxN, a \in 0..D : \A u \in [1..n -> 0..(D - 1)] :
         IsSubset(Select(u, a), n) /\ (a = D => Select(u, a) = All(n))
VARIABLES seed, pos, since, memo, ops
vars == <<seed, pos, since, memo, ops>>
Number(s, p) == ((s + 3) * (p + 2) * (p + 5) + s * p) % D
\* seed -1: not seeded yet
Init == seed = -1 /\ pos = 0 /\ since = <<>> /\ memo = {} /\ ops = 0
Reseed(s) == seed' = s /\ pos' = 0 /\ since' = <<>> /\ ops' = ops + 1 /\ UNCHANGED memo
Sample(n, a) == /\ LET out == Select([i \in 1..n |-> Number(seed, pos + i)], a)
                       key == Append(since, <<n, a>>)
                   IN since' = key /\ memo' = memo \cup {<<seed, key, out>>}
                /\ pos' = pos + n /\ ops' = ops + 1 /\ UNCHANGED seed
\* pair sampling takes a number, dividing work takes none
Foreign == since' = Append(since, <<0, 0>>) /\ pos' = pos + 1 /\ ops' = ops + 1 /\ UNCHANGED <<seed, memo>>
Divide == ops' = ops + 1 /\ UNCHANGED <<seed, pos, since, memo>>
Next == ops < MaxOps /\ (\/ \E s \in Seeds : Reseed(s)
                         \/ \E n \in 0..MaxN, a \in 0..D : Sample(n, a)
                         \/ Foreign \/ Divide)
Spec == Init /\ [][Next]_vars
\* the same indices after the same seed and the same draws since
Reproducible == \A x, y \in memo : x[1] = y[1] /\ x[2] = y[2] /\ x[1] # -1 => x[3] = y[3]
=============================================================================
