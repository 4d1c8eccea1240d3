----------------------------- MODULE DataStore -----------------------------
(* The in-memory data store: a table of named, typed columns.                *)
(* cols maps the name of each present column to [type, rows, id]; id stands  *)
(* for the identity and content of the column object that was added.         *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Names, Types, Rows

VARIABLES cols, res

vars == <<cols, res>>

Init == cols = <<>> /\ res = "OK"      \* <<>> : the empty function

NumRows(c) == IF DOMAIN c = {} THEN 0 ELSE c[CHOOSE n \in DOMAIN c : TRUE].rows
NumCols(c) == Cardinality(DOMAIN c)
Listing(c, t) == {n \in DOMAIN c : c[n].type = t}

Duplicate(c, n) == n \in DOMAIN c
Mismatch(c, r) == DOMAIN c # {} /\ NumRows(c) # r

With(c, n, v) == [x \in DOMAIN c \cup {n} |-> IF x = n THEN v ELSE c[x]]
Without(c, n) == [x \in DOMAIN c \ {n} |-> c[x]]

\* Add succeeds exactly when the name is new and the row count agrees.  A failed Add changes nothing.
AddOk(n, t, r, id) ==
  /\ ~Duplicate(cols, n) /\ ~Mismatch(cols, r)
  /\ cols' = With(cols, n, [type |-> t, rows |-> r, id |-> id])
  /\ res' = "OK"
AddDuplicate(n) == Duplicate(cols, n) /\ cols' = cols /\ res' = "ALREADY_EXISTS"
AddMismatch(r) == Mismatch(cols, r) /\ cols' = cols /\ res' = "OUT_OF_RANGE"
Add(n, t, r, id) == AddOk(n, t, r, id) \/ AddDuplicate(n) \/ AddMismatch(r)

Remove(n) == cols' = Without(cols, n) /\ res' = "OK"

Next == \/ \E n \in Names, t \in Types, r \in Rows : Add(n, t, r, 0)
        \/ \E n \in Names : Remove(n)

Spec == Init /\ [][Next]_vars

\* ---- properties -------------------------------------------------------------
TypeOK == \A n \in DOMAIN cols : n \in Names /\ cols[n].type \in Types /\ cols[n].rows \in Rows
EqualRows == \A m, n \in DOMAIN cols : cols[m].rows = cols[n].rows
ListingPartition ==
  /\ UNION {Listing(cols, t) : t \in Types} = DOMAIN cols
  /\ \A s, t \in Types : s # t => Listing(cols, s) \cap Listing(cols, t) = {}
\* A present column only ever disappears through Remove, and is never replaced.
Stable == [][\A n \in DOMAIN cols : n \in DOMAIN cols' => cols'[n] = cols[n]]_vars
FailedAddIsNoop == [][res' # "OK" => cols' = cols]_vars
=============================================================================
