--------------------------- MODULE DataStoreGen ----------------------------
(* Test generation: one call history per transition of DataStore's state     *)
(* graph (VIEW hides the history, so each state keeps its shortest one).     *)
EXTENDS DataStore, Json
VARIABLE hist
GVars == <<vars, hist>>
GInit == Init /\ hist = <<>>
GNext ==
  \/ \E n \in Names, t \in Types, r \in Rows :
       Add(n, t, r, 0) /\ hist' = Append(hist, [op |-> "add", n |-> n, t |-> t, r |-> r])
  \/ \E n \in Names : Remove(n) /\ hist' = Append(hist, [op |-> "del", n |-> n])
GSpec == GInit /\ [][GNext]_GVars
GView == cols
Emit == PrintT("HIST " \o ToJson(hist'))
=============================================================================
