---------------------------- MODULE PySessionMC -----------------------------
(* The sessions as a state machine, for model checking and for generating    *)
(* one history per transition.  Columns of Wide rows differ by their mark.   *)
EXTENDS PySession, Json
CONSTANTS Stores, Handles, ColNames, Types, Lens
VARIABLES stores, handles, ok, hist
vars == <<stores, handles, ok>>
None == [x \in {} |-> 0]
Vec(n, k) == [i \in 1..k |-> i]
Keep == stores' = stores /\ handles' = handles
Is(o) == hist' = Append(hist, o)
Init == stores = None /\ handles = None /\ ok = TRUE /\ hist = <<>>
Result(s, r) == stores' = IF r.ok THEN With(stores, s, r.st) ELSE stores
New(s) == stores' = With(stores, s, Nothing) /\ ok' = TRUE /\ UNCHANGED handles /\ Is([op |-> "new", s |-> s])
Add(s, n, t, k) == /\ s \in DOMAIN stores
                   /\ LET r == Put(stores[s], n, t, Vec(n, k))
                      IN ok' = r.ok /\ Result(s, r)
                   /\ UNCHANGED handles /\ Is([op |-> "add", s |-> s, n |-> n, t |-> t, k |-> k])
Del(s, n) == s \in DOMAIN stores /\ stores' = With(stores, s, Erase(stores[s], n)) /\ ok' = TRUE /\ UNCHANGED handles
             /\ Is([op |-> "erase", s |-> s, n |-> n])
Clear(s) == s \in DOMAIN stores /\ stores' = With(stores, s, Nothing) /\ ok' = TRUE /\ UNCHANGED handles /\ Is([op |-> "clear", s |-> s])
Drop(s) == s \in DOMAIN stores /\ stores' = Without(stores, s) /\ ok' = TRUE /\ UNCHANGED handles /\ Is([op |-> "dropstore", s |-> s])
Get(s, n, h) == /\ s \in DOMAIN stores /\ UNCHANGED stores
                /\ ok' = (n \in DOMAIN stores[s].cols)
                /\ handles' = IF ok' THEN With(handles, h, [n |-> n, t |-> stores[s].cols[n].t, v |-> stores[s].cols[n].v]) ELSE handles
                /\ Is([op |-> "get", s |-> s, n |-> n, h |-> h])
Let(h) == h \in DOMAIN handles /\ handles' = Without(handles, h) /\ ok' = TRUE /\ UNCHANGED stores /\ Is([op |-> "drophandle", h |-> h])
Cut(s, d, idx) == /\ s \in DOMAIN stores
                  /\ LET r == Slice(stores[s], idx) IN ok' = r.ok /\ Result(d, r)
                  /\ UNCHANGED handles /\ Is([op |-> "slice", s |-> s, to |-> d, idx |-> idx])
Next == \E s \in Stores :
          \/ New(s) \/ Clear(s) \/ Drop(s)
          \/ \E n \in ColNames : Del(s, n) \/ (\E t \in Types, k \in Lens : Add(s, n, t, k)) \/ (\E h \in Handles : Get(s, n, h))
          \/ \E d \in Stores, idx \in {<<>>, <<0>>, <<1, 0>>, <<2>>} : Cut(s, d, idx)
          \/ \E h \in Handles : Let(h)
Spec == Init /\ [][Next]_<<stores, handles, ok, hist>>
View == <<stores, handles>>
Emit == PrintT("HIST " \o ToJson(hist'))
\* ---- properties
Rectangular == \A s \in DOMAIN stores : \A m, n \in DOMAIN stores[s].cols : Len(stores[s].cols[m].v) = Len(stores[s].cols[n].v)
EmptyHasNoColumns == \A s \in DOMAIN stores : ~stores[s].has => DOMAIN stores[s].cols = {}
FailureChangesNothing == [][~ok' => Keep]_<<stores, handles, ok, hist>>
HandlesNeverChange == [][\A h \in DOMAIN handles : h \in DOMAIN handles' => handles'[h] = handles[h] \/ hist'[Len(hist')].op = "get"]_<<stores, handles, ok, hist>>
OneStoreAtATime == [][Cardinality({s \in DOMAIN stores \cap DOMAIN stores' : stores[s] # stores'[s]}) <= 1]_<<stores, handles, ok, hist>>
=============================================================================
