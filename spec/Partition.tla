----------------------------- MODULE Partition ------------------------------
(* In-place division of a slice of row numbers by a predicate: requirements  *)
(* and the swapping loop.                                                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS MaxLen
Count(q, x) == Cardinality({i \in DOMAIN q : q[i] = x})
Permutation(p, q) == Len(p) = Len(q) /\ \A i \in DOMAIN p : Count(p, p[i]) = Count(q, p[i])
\* before, after: the whole vector; the slice is off + 1 .. off + len; left, right: the answer
NothingElseTouched(before, after, off, len) ==
  Len(before) = Len(after) /\ \A i \in DOMAIN before : (i <= off \/ i > off + len) => after[i] = before[i]
SidesAreTheSlice(after, off, len, left, right) == left \o right = SubSeq(after, off + 1, off + len)
RightSide(left, right, IsLeft(_)) == (\A i \in DOMAIN left : IsLeft(left[i])) /\ (\A i \in DOMAIN right : ~IsLeft(right[i]))

VARIABLES vec, orig, off, len, i, nleft, leftset
vars == <<vec, orig, off, len, i, nleft, leftset>>
Init == \E n \in 0..MaxLen : \E o \in 0..n : \E k \in 0..(n - o) : \E A \in SUBSET (1..n) :
          /\ vec = [j \in 1..n |-> j] /\ orig = vec /\ off = o /\ len = k /\ i = 0 /\ nleft = 0 /\ leftset = A
Swap(q, a, b) == [q EXCEPT ![a] = q[b], ![b] = q[a]]
Step == /\ i < len /\ i' = i + 1
        /\ IF vec[off + i + 1] \in leftset
           THEN vec' = Swap(vec, off + i + 1, off + nleft + 1) /\ nleft' = nleft + 1
           ELSE UNCHANGED <<vec, nleft>>
        /\ UNCHANGED <<orig, off, len, leftset>>
Spec == Init /\ [][Step]_vars /\ WF_vars(Step)
LoopInv == /\ \A j \in 1..nleft : vec[off + j] \in leftset
           /\ \A j \in (nleft + 1)..i : vec[off + j] \notin leftset
           /\ Permutation(SubSeq(vec, off + 1, off + len), SubSeq(orig, off + 1, off + len))
           /\ NothingElseTouched(orig, vec, off, len)
Done == i = len => RightSide(SubSeq(vec, off + 1, off + nleft), SubSeq(vec, off + nleft + 1, off + len), LAMBDA x : x \in leftset)
Ends == <>(i = len)
=============================================================================
