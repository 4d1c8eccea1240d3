--------------------------- MODULE BucketsTrace ----------------------------
EXTENDS TraceLib
BK == INSTANCE Buckets WITH NaN <- 2147483647, Top <- 2139095039, Values <- {}, MaxRows <- 0, MaxBudget <- 0,
                            v <- <<>>, b <- 0, lens <- <<>>
VARIABLE l
Bad(ev) ==
  IF ev.e \notin {"Bkt", "BktBig"} THEN {ev.e}
  ELSE IF ~ev.ok \/ ev.n # Len(ev.v) \/ ~BK!Sized(ev.v, ev.code) THEN {"status or size"}
  ELSE LET m == BK!Built(ev.lens, ev.budget) IN
         Fail(BK!MissingIffNaN(ev.v, ev.code), "missing is not exactly NaN")
    \cup Fail(\A i \in DOMAIN ev.v : (ev.miss[i] = 1) <=> (ev.code[i] = 0), "missing()")
    \cup Fail(BK!Within(ev.v, ev.mn, ev.mx), "a row lies outside its bucket")
    \cup Fail(BK!Ordered(ev.ocode, ev.omn, ev.omx), "buckets overlap or are out of order")
    \cup Fail(BK!SameBucket(ev.code, ev.mn, ev.mx, ev.ocode, ev.omn, ev.omx), "bounds of a row are not those of its bucket")
    \cup Fail(\A k \in DOMAIN ev.ocode : ev.ocode[k] < ev.maxint, "category out of range")
    \cup Fail(BK!Lossless(ev.v, ev.mn, ev.mx, ev.budget, m), "few rows, but two values share a bucket")
    \cup Fail(BK!FewBuckets(ev.maxint, ev.budget), "too many buckets")
    \cup IF ev.e = "BktBig" THEN {}
         ELSE Fail(BK!HeavyTop(ev.v, ev.mx, ev.budget, m), "a heavy value is not the upper end of its bucket")
         \cup Fail(BK!Spread(ev.v, ev.code, ev.ocode, ev.budget, m), "a bucket holds too many different rows")
TInit == l = 1
TNext == l <= Len(Trace) /\ Judge(l, Bad(Trace[l])) /\ l' = l + 1
TSpec == TInit /\ [][TNext]_l
=============================================================================
