------------------------------- MODULE Splits -------------------------------
(* Splitting a set of rows by one feature.  A problem is a record            *)
(*   [code, w, g, h, lam4, minh4, ming4]                                     *)
(* code: bucket or category of each row (0: missing), w, g, h integers,      *)
(* lambda, minimum hessian and minimum gain in quarters.                     *)
(* Energies and gains are integers in units of 1/10000.                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, FiniteSetsExt, SequencesExt

SumG(p, S) == MapThenSumSet(LAMBDA i : p.w[i] * p.g[i], S)
SumH(p, S) == MapThenSumSet(LAMBDA i : p.w[i] * p.h[i], S)
EnergyGH(g, h, lam4) == IF 4 * h + lam4 = 0 THEN 0 ELSE (40000 * g * g) \div (4 * h + lam4)
Energy(p, S) == EnergyGH(SumG(p, S), SumH(p, S), p.lam4)
ScoreGH(g, h, lam4) == IF 4 * h + lam4 = 0 THEN 0 ELSE (40000 * g) \div (4 * h + lam4)
\* gain of dividing S into L and the rest
Gain(p, S, L) == Energy(p, L) + Energy(p, S \ L) - Energy(p, S)
HeavyEnough(p, S, L) == 4 * SumH(p, L) > p.minh4 /\ 4 * SumH(p, S \ L) > p.minh4
Codes(p, S) == {p.code[i] : i \in S}
RowsIn(p, S, C) == {i \in S : p.code[i] \in C}

\* ---- the candidate divisions --------------------------------------------------
\* float: all values below a cut, missing on either side
FloatCandidates(p, S) ==
  LET D == Codes(p, S) \ {0}
      Below(x) == {i \in S : p.code[i] # 0 /\ p.code[i] < x}
      Miss == {i \in S : p.code[i] = 0}
      Cuts == D \cup {1000000}
  IN {Below(x) : x \in Cuts} \cup {Below(x) \cup Miss : x \in Cuts}
\* categories in the order of their scores g / (h + lambda), cut where the score strictly increases
Cross(p, a, b) == a.g * (4 * b.h + p.lam4) < b.g * (4 * a.h + p.lam4)
CatSums(p, S, c) == LET R == RowsIn(p, S, {c}) IN [g |-> SumG(p, R), h |-> SumH(p, R)]
LessScore(p, a, b) == \* a zero denominator counts as score 0
  LET za == 4 * a.h + p.lam4 = 0   zb == 4 * b.h + p.lam4 = 0 IN
  IF za /\ zb THEN FALSE ELSE IF za THEN 0 < b.g ELSE IF zb THEN a.g < 0 ELSE Cross(p, a, b)
OrderCandidates(p, S) ==
  LET C == Codes(p, S)
      sum == [c \in C |-> CatSums(p, S, c)]
  IN {RowsIn(p, S, {c \in C : LessScore(p, sum[c], sum[d])}) : d \in C}
SubsetCandidates(p, S) == {RowsIn(p, S, D) : D \in SUBSET Codes(p, S)}
\* all subsets are searched implicitly when nothing but the loss counts
Unconstrained(p, S) == p.lam4 = 0 /\ p.minh4 = 0 /\ \A c \in Codes(p, S) : SumH(p, RowsIn(p, S, {c})) > 0
CatCandidates(p, S) == IF Unconstrained(p, S) /\ Cardinality(Codes(p, S)) <= 6 THEN SubsetCandidates(p, S) ELSE OrderCandidates(p, S)
Candidates(p, S, t) == IF t = "str" THEN CatCandidates(p, S) ELSE FloatCandidates(p, S)
Gains(p, S, t) == {Gain(p, S, L) : L \in {M \in Candidates(p, S, t) : HeavyEnough(p, S, M)}}
MaxGain(p, S, t) == LET G == Gains(p, S, t) IN IF G = {} THEN -1 ELSE Max(G \cup {-1})
MinGain(p) == p.ming4 * 2500

\* ---- requirements on a reported split -----------------------------------------
Tol == 8
\* found, gain: the answer; L: the rows Partition sends left
GainIsReal(p, S, gain, L) == gain - Gain(p, S, L) \in (-Tol)..Tol
Qualifies(p, S, gain, L) == HeavyEnough(p, S, L) /\ gain >= MinGain(p) - Tol /\ gain >= 0
Optimal(p, S, t, gain) == \A x \in Gains(p, S, t) : x <= gain + Tol
NoneQualifies(p, S, t) == \A x \in Gains(p, S, t) : x <= MinGain(p) + Tol

\* ---- the algorithm: one scan over the buckets in (score) order -----------------
CONSTANTS ScanG, ScanH, ScanCodes, ScanRows, ScanParams, ScanType
VARIABLES rows, par
vars == <<rows, par>>
\* best: [gain, at, mright]
RECURSIVE Scan(_, _, _, _, _, _)
Scan(p, S, order, i, placeMissing, best) ==
  IF i > Len(order) THEN best
  ELSE
   LET L == RowsIn(p, S, {order[k] : k \in 1..(i - 1)})
       M == RowsIn(p, S, {0})
       g1 == IF HeavyEnough(p, S, L) THEN Gain(p, S, L) ELSE 0
       try == placeMissing /\ M # {} /\ HeavyEnough(p, S, L \ M)
       g2 == IF try THEN Gain(p, S, L \ M) ELSE 0
       mr == try /\ g2 > g1
       g == IF mr THEN g2 ELSE g1
   IN Scan(p, S, order, i + 1, placeMissing,
           IF g > Max({best.gain, MinGain(p), 0}) THEN [gain |-> g, at |-> i - 1, mr |-> mr] ELSE best)

Init == rows = <<>> /\ par \in ScanParams
Next == Len(rows) < ScanRows /\ \E c \in ScanCodes, g \in ScanG, h \in ScanH :
           rows' = Append(rows, [code |-> c, g |-> g, h |-> h]) /\ UNCHANGED par
Spec == Init /\ [][Next]_vars

Problem == [code |-> [i \in DOMAIN rows |-> rows[i].code], w |-> [i \in DOMAIN rows |-> 1],
            g |-> [i \in DOMAIN rows |-> rows[i].g], h |-> [i \in DOMAIN rows |-> rows[i].h],
            lam4 |-> par.lam4, minh4 |-> par.minh4, ming4 |-> par.ming4]
ScanIsOptimal ==
  LET p == Problem
      S == DOMAIN rows
      C == Codes(p, S)
      order == IF ScanType = "str"
               THEN SetToSortSeq(C, LAMBDA a, b : LessScore(p, CatSums(p, S, a), CatSums(p, S, b)))
               ELSE SetToSortSeq(C, LAMBDA a, b : a < b)
      b == Scan(p, S, order, 2, ScanType # "str", [gain |-> 0, at |-> 0, mr |-> FALSE])
      L == LET X == RowsIn(p, S, {order[k] : k \in 1..b.at}) IN IF b.mr THEN X \ RowsIn(p, S, {0}) ELSE X
  IN IF b.at > 0 THEN /\ GainIsReal(p, S, b.gain, L) /\ Qualifies(p, S, b.gain, L) /\ Optimal(p, S, ScanType, b.gain)
     ELSE NoneQualifies(p, S, ScanType)
=============================================================================
