----------------------------- MODULE PySession ------------------------------
(* Python sessions (C24): stores, column handles and forests held by a       *)
(* program.  A store is absent, empty (has = FALSE) or a table of typed       *)
(* columns; a handle is the column it was taken from, for good.               *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Nothing == [has |-> FALSE, cols |-> [x \in {} |-> 0]]
Table(c) == [has |-> TRUE, cols |-> c]
Rows(st) == IF DOMAIN st.cols = {} THEN 0 ELSE Len(st.cols[CHOOSE n \in DOMAIN st.cols : TRUE].v)
Of(st, t) == {n \in DOMAIN st.cols : st.cols[n].t = t}
Yes(x) == [ok |-> TRUE, st |-> x]
No(x) == [ok |-> FALSE, st |-> x]
\* a failed call leaves the store as it was
Put(st, n, t, v) ==
  IF n \in DOMAIN st.cols \/ (DOMAIN st.cols # {} /\ Len(v) # Rows(st)) THEN No(st)
  ELSE Yes(Table([x \in DOMAIN st.cols \cup {n} |-> IF x = n THEN [t |-> t, v |-> v] ELSE st.cols[x]]))
Erase(st, n) == IF ~st.has THEN st ELSE Table([x \in DOMAIN st.cols \ {n} |-> st.cols[x]])
\* a sequence of columns [n, t, v] into a new store
RECURSIVE PutAll(_, _)
PutAll(st, q) == IF q = <<>> THEN Yes(st)
                 ELSE LET r == Put(st, q[1].n, q[1].t, q[1].v)
                      IN IF r.ok THEN PutAll(r.st, Tail(q)) ELSE No(Nothing)
Build(q) == PutAll(Nothing, q)
\* the rows at the given positions, counted from 0
InRange(st, idx) == DOMAIN st.cols = {} \/ \A k \in DOMAIN idx : idx[k] >= 0 /\ idx[k] < Rows(st)
Pick(v, idx) == [k \in DOMAIN idx |-> v[idx[k] + 1]]
Slice(st, idx) == IF ~InRange(st, idx) THEN No(Nothing)
                  ELSE IF DOMAIN st.cols = {} THEN Yes(Nothing)
                  ELSE Yes(Table([n \in DOMAIN st.cols |-> [t |-> st.cols[n].t, v |-> Pick(st.cols[n].v, idx)]]))
Upto(k) == [i \in 1..k |-> i - 1]
Described(st) == IF ~st.has THEN "Empty data store."
                 ELSE "DataStore with " \o ToString(Cardinality(Of(st, "bkt"))) \o " bucketized float, "
                      \o ToString(Cardinality(Of(st, "raw"))) \o " raw float and "
                      \o ToString(Cardinality(Of(st, "str"))) \o " string columns, each with "
                      \o ToString(Rows(st)) \o " rows."
\* functions as maps
With(m, k, x) == [y \in DOMAIN m \cup {k} |-> IF y = k THEN x ELSE m[y]]
Without(m, k) == [y \in DOMAIN m \ {k} |-> m[y]]
=============================================================================
