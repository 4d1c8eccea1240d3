------------------------- MODULE StringColumnTrace -------------------------
EXTENDS TraceLib
SC == INSTANCE StringColumn WITH Strings <- {}, MaxRows <- 0, dict <- <<0>>, rows <- <<>>, given <- <<>>
VARIABLE l
Bad(ev) ==
  IF ev.e # "Str" THEN {ev.e}
  ELSE IF ~ev.ok \/ ev.n # Len(ev.want) THEN {"status or size"}
  ELSE Fail(SC!RoundTrip(ev.want, ev.got), "a row is not read back as added")
    \cup (IF SC!CodesValid(ev.code, ev.cats)
          THEN Fail(SC!CatsDecode(ev.want, ev.code, ev.cats), "category string of a row")
               \cup Fail(SC!Injective(ev.want, ev.code), "strings and categories are not one to one")
          ELSE {"category out of range"})
    \cup Fail(SC!MissingOnly(ev.want, ev.code), "category 0")
    \cup Fail(\A i \in DOMAIN ev.code : (ev.miss[i] = 1) <=> (ev.want[i] = 0), "missing()")
    \cup Fail(ev.maxint = Len(ev.cats) /\ ev.maxint = ev.nids /\ SC!DistinctCats(ev.cats), "dictionary")
    \cup Fail(\A k \in DOMAIN ev.inv : ev.inv[k] = k - 1, "category lookup is not inverse")
    \cup Fail(~ev.nosuch, "lookup of an absent string")
    \cup Fail(ev.type = 0 /\ ev.name = "col", "name or type")
TInit == l = 1
TNext == l <= Len(Trace) /\ Judge(l, Bad(Trace[l])) /\ l' = l + 1
TSpec == TInit /\ [][TNext]_l
=============================================================================
