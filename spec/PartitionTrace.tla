--------------------------- MODULE PartitionTrace --------------------------
EXTENDS TraceLib, Routing
PT == INSTANCE Partition WITH MaxLen <- 0, vec <- <<>>, orig <- <<>>, off <- 0, len <- 0, i <- 0, nleft <- 0, leftset <- {}
VARIABLE l
Bad(ev) ==
  IF ev.e = "Large" THEN   \* many copies of few rows: each copy goes where its row belongs
       LET L == {k \in 0..(Len(ev.v) - 1) : GoesLeft(ev.node[1], ev.v[k + 1])}
       IN Fail(ev.parts, "sides are not the two parts of the slice") \cup Fail(ev.outside, "rows outside the slice touched")
          \cup Fail(ev.same, "rows lost or duplicated") \cup Fail(~ev.filled, "a row of a category not named went left")
          \cup Fail(SetOf(ev.left) \subseteq L /\ SetOf(ev.right) \cap L = {}, "a row is on the wrong side")
  ELSE IF ev.e # "Partition" THEN {ev.e}
  ELSE LET node == ev.node[1]
       IN Fail(ev.lsz = Len(ev.left) /\ ev.rsz = Len(ev.right), "sizes")
     \cup Fail(PT!Permutation(ev.left \o ev.right, SubSeq(ev.before, ev.off + 1, ev.off + ev.len)), "rows lost or duplicated")
     \cup Fail(PT!NothingElseTouched(ev.before, ev.after, ev.off, ev.len), "rows outside the slice touched")
     \cup Fail(PT!SidesAreTheSlice(ev.after, ev.off, ev.len, ev.left, ev.right), "sides are not the two parts of the slice")
     \cup Fail(PT!RightSide(ev.left, ev.right, LAMBDA x : GoesLeft(node, ev.v[x + 1])), "a row is on the wrong side")
     \cup Fail(ev.t = "str" \/ ~ev.exact \/ ev.v = ev.ov, "column is not lossless")
TInit == l = 1
TNext == l <= Len(Trace) /\ Judge(l, Bad(Trace[l])) /\ l' = l + 1
TSpec == TInit /\ [][TNext]_l
=============================================================================
