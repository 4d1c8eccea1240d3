------------------------------ MODULE Buckets ------------------------------
(* Bucketizing a column of floats.  Values are integers with the order of    *)
(* the floats; NaN is the constant NaN.  The abstract result is any division *)
(* of the value axis into buckets with the required properties; the module   *)
(* also transcribes the algorithm (heavy values first, the rest binned       *)
(* evenly) and checks on small columns that it produces such a division.     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

CONSTANTS NaN, Top,        \* Top: the largest finite value
          Values, MaxRows, MaxBudget

Larger(a, b) == IF a > b THEN a ELSE b
Count(v, x) == Cardinality({i \in DOMAIN v : v[i] = x})

\* Rows the buckets are built from: the batches until more than 100 * budget rows are there, else all.
RECURSIVE BuiltFrom(_, _, _, _)
BuiltFrom(lens, k, sum, budget) ==
  IF k > Len(lens) \/ sum > 100 * budget THEN sum ELSE BuiltFrom(lens, k + 1, sum + lens[k], budget)
Built(lens, budget) == BuiltFrom(lens, 1, 0, budget)

Share(n, b) == Larger(1, n \div b)                 \* an average bucket's share of n rows
Heavy(v, b) == LET n == Len(v) IN {x \in {v[i] : i \in DOMAIN v} \ {NaN} : Count(v, x) >= Share(n, b)}
LeftRows(v, b) == LET H == Heavy(v, b) IN Cardinality({i \in DOMAIN v : v[i] \notin H})
LeftShare(v, b) == Larger(1, LeftRows(v, b) \div Larger(1, b - 1 - Cardinality(Heavy(v, b))))

\* ---- requirements on a finished column --------------------------------------
\* v: rows; code, mn, mx: per row; oc, omn, omx: occupied buckets in order of code; m: rows built from
Sized(v, code) == Len(code) = Len(v)
MissingIffNaN(v, code) == \A i \in DOMAIN v : (code[i] = 0) <=> (v[i] = NaN)
Within(v, mn, mx) == \A i \in DOMAIN v : v[i] # NaN => mn[i] <= v[i] /\ v[i] <= mx[i]
Ordered(oc, omn, omx) ==
  \A k \in DOMAIN oc : /\ omn[k] <= omx[k]
                       /\ k > 1 => oc[k - 1] < oc[k] /\ omx[k - 1] < omn[k]
SameBucket(code, mn, mx, oc, omn, omx) ==
  LET P == {<<code[i], mn[i], mx[i]>> : i \in {j \in DOMAIN code : code[j] # 0}}
  IN  P = {<<oc[k], omn[k], omx[k]>> : k \in DOMAIN oc}
Lossless(v, mn, mx, budget, m) == m < 2 * budget /\ m = Len(v) => \A i \in DOMAIN v : v[i] # NaN => mn[i] = v[i] /\ mx[i] = v[i]
HeavyTop(v, mx, budget, m) ==
  m > 0 => LET H == Heavy(SubSeq(v, 1, m), budget)
           IN  \A i \in DOMAIN v : v[i] \in H => mx[i] = v[i]
\* Rows built from that share a bucket although they differ are fewer than the two shares together.
Spread(v, code, oc, budget, m) ==
  m > 0 => LET w == SubSeq(v, 1, m)
               lim == Share(m, budget) + LeftShare(w, budget)
               H == Heavy(w, budget)
           IN \A k \in DOMAIN oc :
                LET R == {i \in 1..m : code[i] = oc[k] /\ v[i] \notin H}
                IN  Cardinality({v[i] : i \in R}) > 1 => Cardinality(R) < lim
FewBuckets(maxint, budget) == maxint <= 2 * budget + 3

\* ---- the algorithm ----------------------------------------------------------
SortedDistinct(S) == SetToSortSeq(S, LAMBDA a, b : a < b)
RECURSIVE Bin(_, _, _, _, _)
Bin(w, xs, k, sum, cap) ==
  IF k > Len(xs) THEN IF sum > 0 THEN {xs[Len(xs)]} ELSE {}
  ELSE LET s == sum + Count(w, xs[k])
       IN IF s >= cap THEN {xs[k]} \cup Bin(w, xs, k + 1, 0, cap) ELSE Bin(w, xs, k + 1, s, cap)
Tops(w, b) ==
  LET H == Heavy(w, b)
      L == SortedDistinct({w[i] : i \in DOMAIN w} \ (H \cup {NaN}))
  IN H \cup Bin(w, L, 1, 0, LeftShare(w, b)) \cup {Top}

VARIABLES v, b, lens
vars == <<v, b, lens>>
Init == v = <<>> /\ b \in 1..MaxBudget /\ lens = <<>>
Add == \E x \in Values \cup {NaN} : Len(v) < MaxRows /\ v' = Append(v, x) /\ UNCHANGED <<b, lens>>
Spec == Init /\ [][Add]_vars

AlgorithmMeetsRequirements ==
  LET T == SortedDistinct(Tops(v, b))
      codeOf(x) == IF x = NaN THEN 0 ELSE CHOOSE k \in DOMAIN T : T[k] >= x /\ (k = 1 \/ T[k - 1] < x)
      code == [i \in DOMAIN v |-> codeOf(v[i])]
      occ == SortedDistinct({code[i] : i \in DOMAIN v} \ {0})
      lo(k) == LET M == {v[i] : i \in {j \in DOMAIN v : code[j] = k}} IN CHOOSE x \in M : \A y \in M : x <= y
      mn == [i \in DOMAIN v |-> IF code[i] = 0 THEN NaN ELSE lo(code[i])]
      mx == [i \in DOMAIN v |-> IF code[i] = 0 THEN NaN ELSE T[code[i]]]
      omn == [k \in DOMAIN occ |-> lo(occ[k])]
      omx == [k \in DOMAIN occ |-> T[occ[k]]]
      m == Len(v)
  IN /\ MissingIffNaN(v, code) /\ Within(v, mn, mx) /\ Ordered(occ, omn, omx)
     /\ SameBucket(code, mn, mx, occ, omn, omx) /\ Lossless(v, mn, mx, b, m)
     /\ HeavyTop(v, mx, b, m) /\ Spread(v, code, occ, b, m) /\ FewBuckets(Len(T) + 1, b)
=============================================================================
