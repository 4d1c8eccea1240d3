---------------------------- MODULE SplitsTrace ----------------------------
EXTENDS TraceLib
SP == INSTANCE Splits WITH ScanG <- {}, ScanH <- {}, ScanCodes <- {}, ScanRows <- 0, ScanParams <- {}, ScanType <- "",
                           rows <- <<>>, par <- <<>>
VARIABLE l
Plus1(S) == {i + 1 : i \in S}
Bad(ev) ==
  IF ev.e # "Split" THEN {ev.e}
  ELSE LET S == Plus1(SetOf(ev.rows))
           L == Plus1(SetOf(ev.left))
           R == Plus1(SetOf(ev.right))
       IN Fail(ev.kept, "rows lost or duplicated, or equal rows treated differently") \cup
          IF ev.found
          THEN Fail(L \cup R = S /\ L \cap R = {} /\ Len(ev.left) + Len(ev.right) = Cardinality(S), "rows lost or duplicated")
               \cup Fail(ev.kind = IF ev.t = "str" THEN "cat" ELSE "flt", "kind of split")
               \cup Fail(SP!GainIsReal(ev, S, ev.gain, L), "reported gain is not that of the split")
               \cup Fail(SP!Qualifies(ev, S, ev.gain, L), "split violates min_hessian or min_gain")
               \cup Fail(SP!Optimal(ev, S, ev.t, ev.gain), "a better split exists")
          ELSE Fail(SP!NoneQualifies(ev, S, ev.t), "a qualifying split was missed")
TInit == l = 1
TNext == l <= Len(Trace) /\ Judge(l, Bad(Trace[l])) /\ l' = l + 1
TSpec == TInit /\ [][TNext]_l
=============================================================================
