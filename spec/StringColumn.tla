---------------------------- MODULE StringColumn ----------------------------
(* A dictionary-encoded column of strings.  Strings are numbered; 0 is the   *)
(* reserved string "__missing__".  dict is the sequence of distinct strings  *)
(* in order of code (code k is dict[k + 1]); rows holds codes.               *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Strings, MaxRows

VARIABLES dict, rows, given      \* given: the strings added so far (history)

vars == <<dict, rows, given>>

Range(q) == {q[i] : i \in DOMAIN q}
CodeOf(d, s) == (CHOOSE k \in DOMAIN d : d[k] = s) - 1

Init == dict = <<0>> /\ rows = <<>> /\ given = <<>>
AddOne(s) ==
  /\ Len(rows) < MaxRows
  /\ dict' = IF s \in Range(dict) THEN dict ELSE Append(dict, s)
  /\ rows' = Append(rows, CodeOf(dict', s))
  /\ given' = Append(given, s)
Next == \E s \in Strings : AddOne(s)
Spec == Init /\ [][Next]_vars

\* ---- the properties, as predicates on what a finished column shows ----------
\* want: strings added; got: strings read back; code: category per row; cats: string of each category
RoundTrip(want, got) == got = want
CodesValid(code, cats) == \A i \in DOMAIN code : code[i] >= 0 /\ code[i] < Len(cats)
CatsDecode(want, code, cats) == \A i \in DOMAIN code : cats[code[i] + 1] = want[i]
\* each string has one code, each code one string
Injective(want, code) ==
  LET P == {<<want[i], code[i]>> : i \in DOMAIN want}
  IN  Cardinality(P) = Cardinality({p[1] : p \in P}) /\ Cardinality(P) = Cardinality({p[2] : p \in P})
MissingOnly(want, code) == \A i \in DOMAIN code : (code[i] = 0) <=> (want[i] = 0)
DistinctCats(cats) == Cardinality(Range(cats)) = Len(cats) /\ cats[1] = 0

Inv == /\ RoundTrip(given, [i \in DOMAIN rows |-> dict[rows[i] + 1]])
       /\ CodesValid(rows, dict) /\ CatsDecode(given, rows, dict)
       /\ Injective(given, rows) /\ MissingOnly(given, rows) /\ DistinctCats(dict)
\* codes, once given, never change: what was read stays readable
Stable == [][\A i \in DOMAIN rows : rows'[i] = rows[i] /\ dict'[rows[i] + 1] = dict[rows[i] + 1]]_vars
=============================================================================
