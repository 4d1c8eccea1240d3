---------------------------- MODULE ColumnLifeMC ----------------------------
EXTENDS ColumnLife, Json
ModelBatches == {<<>>, <<1>>, <<2, 1>>, <<3, 3>>}
\* generation: one history per transition of the state graph
VARIABLE hist
GInit == Init /\ hist = <<>>
GNext == \/ \E b \in Batches : Add(b) /\ hist' = Append(hist, [op |-> "add", b |-> b])
         \/ Finalize /\ hist' = Append(hist, [op |-> "fin"])
         \/ Build /\ hist' = Append(hist, [op |-> "build"])
GSpec == GInit /\ [][GNext]_<<vars, hist>>
GView == vars
Emit == PrintT("HIST " \o ToJson([kind |-> kind, ops |-> hist']))
=============================================================================
