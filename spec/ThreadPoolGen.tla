---------------------------- MODULE ThreadPoolGen ----------------------------
(* Stimuli: every system of N tasks handed in by one thread in which each    *)
(* task may wait for the start or the end of others, for W workers, that the *)
(* specification can complete: taking tasks in order, no more than W at a    *)
(* time, a task ending once what it waits for has happened.                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt
CONSTANTS N, W
RECURSIVE Go(_, _, _, _, _, _)
\* taken: 1..k were taken; done: ended
Go(n, w, ns, ne, k, done) ==
  IF Cardinality(done) = n THEN TRUE
  ELSE LET can == {i \in (1..k) \ done : ns[i] \subseteq 1..k /\ ne[i] \subseteq done}
       IN IF can # {} THEN Go(n, w, ns, ne, k, done \cup can)
          ELSE IF k < n /\ k - Cardinality(done) < w THEN Go(n, w, ns, ne, k + 1, done)
          ELSE FALSE
None(n) == [i \in 1..n |-> {}]
Deps(n) == {f \in [1..n -> SUBSET (1..n)] : \A i \in 1..n : i \notin f[i]}
One(n) == {f \in Deps(n) : \A i \in 1..n : Cardinality(f[i]) <= 1}
Cases(n, w) == {[workers |-> w, started |-> [i \in 1..n |-> SetToSeq(a[i])], ended |-> [i \in 1..n |-> <<>>]]
                  : a \in {a \in Deps(n) : Go(n, w, a, None(n), 0, {})}}
               \cup {[workers |-> w, started |-> [i \in 1..n |-> <<>>], ended |-> [i \in 1..n |-> SetToSeq(b[i])]]
                  : b \in {b \in One(n) : Go(n, w, None(n), b, 0, {})}}
All == UNION {Cases(n, w) : n \in 1..N, w \in 1..W}
VARIABLE x
Init == x = 0
Next == x = 0 /\ x' = 1 /\ ndJsonSerialize(IOEnv.GEN, SetToSeq(All))
Spec == Init /\ [][Next]_x
=============================================================================
