--------------------------- MODULE PySessionTrace ---------------------------
(* Recorded Python sessions against PySession, Evaluate, Boosting/Trees.     *)
(* Every event shows all stores, handles and forests after it.  After a      *)
(* rejection the rest of that session is skipped (live = FALSE).             *)
EXTENDS PySession, TrainCheck
VARIABLES l, live, stores, handles, forests, trained, seen
ev == Trace[l]
tvars == <<l, live, stores, handles, forests, trained, seen>>
Nowhere == [x \in {} |-> 0]
\* ---- what is shown
SameCol(o, c) == o.t = c.t /\ o.v = c.v
ShowsStore(o, st) ==
  Fail(o.len = Rows(st) /\ SetOf(o.keys) = DOMAIN st.cols /\ Len(o.keys) = Cardinality(DOMAIN st.cols), "columns or length of a store")
  \cup Fail(SetOf(o.bkt) = Of(st, "bkt") /\ SetOf(o.raw) = Of(st, "raw") /\ SetOf(o.str) = Of(st, "str"), "columns by type")
  \cup Fail(\A n \in SetOf(o.has) : n \in DOMAIN st.cols, "contains")
  \cup Fail(o.repr = Described(st), "description of a store")
  \cup Fail(\A i \in DOMAIN o.cols : o.cols[i].n \in DOMAIN st.cols /\ SameCol(o.cols[i], st.cols[o.cols[i].n]), "values of a store")
Shows(e, ss, hs, fs) ==
  Fail({e.stores[i].id : i \in DOMAIN e.stores} = DOMAIN ss, "stores")
  \cup Fail({e.handles[i].id : i \in DOMAIN e.handles} = DOMAIN hs, "handles")
  \cup Fail({e.forests[i].id : i \in DOMAIN e.forests} = DOMAIN fs, "forests")
  \cup UNION {IF e.stores[i].id \in DOMAIN ss THEN ShowsStore(e.stores[i], ss[e.stores[i].id]) ELSE {} : i \in DOMAIN e.stores}
  \cup Fail(\A i \in DOMAIN e.handles : LET o == e.handles[i] IN o.id \in DOMAIN hs => o.n = hs[o.id].n /\ SameCol(o, hs[o.id]), "a handle shows another column")
  \cup Fail(\A i \in DOMAIN e.forests : LET o == e.forests[i] IN o.id \in DOMAIN fs => o.hex = fs[o.id].hex, "a forest changed")
\* ---- one step: the outcome required (or "any"), the new state, further faults
Out(ok, ss, hs, fs, bad) == [ok |-> ok, ss |-> ss, hs |-> hs, fs |-> fs, bad |-> bad, tr |-> trained, sn |-> seen]
Quiet(ok) == Out(ok, stores, handles, forests, {})
InStore(s, r) == Out(r.ok, IF r.ok THEN With(stores, s, r.st) ELSE stores, handles, forests, {})
S == stores[ev.s]
F == forests[ev.f]
H == handles[ev.h]
Taken(n) == IF n \in DOMAIN S.cols THEN Out(TRUE, stores, With(handles, ev.h, [n |-> n, t |-> S.cols[n].t, v |-> S.cols[n].v]), forests, {})
            ELSE Quiet(FALSE)
\* files with these columns; any defect makes the load fail
Broken == "bad" \in DOMAIN ev
Distinct(q) == \A i, j \in DOMAIN q : q[i].n = q[j].n => i = j
Loaded == IF Broken THEN No(Nothing) ELSE IF ev.cols = <<>> THEN Yes(Table(Nowhere)) ELSE Build(ev.cols)
\* ---- training
Data == S.cols
Features == SetOf(ev.features)
Known == {f \in Features : f \in DOMAIN Data /\ Data[f].t \in {"bkt", "str"}}
Given(x) == x \in DOMAIN ev /\ ev[x] # <<>>
Target == ev.cfg.target_column
HasTarget == "target_column" \in DOMAIN ev.cfg /\ Target # "" /\ Target \in DOMAIN Data /\ Data[Target].t = "raw"
Y == IF Given("y") THEN ev.y ELSE Data[Target].v
\* float weights and targets as multiples of 1/8, when they are
Base == IF "base" \in DOMAIN ev THEN forests[ev.base].trees ELSE <<>>
Trainable ==
  /\ Features = Known /\ Features # {}
  /\ Given("y") => Len(ev.y) = Rows(S)
  /\ Given("w") => Len(ev.w) = Rows(S)
  /\ ~Given("y") => HasTarget
  /\ ev.cfg.loss_func \in {"mse", "logloss"}
  /\ Fits(Base, Data)
  /\ S.has
\* ties between features are resolved by the order in which the store lists them
Key == <<ev.order, [f \in Features |-> Data[f]], Y, IF Given("w") THEN ev.w ELSE <<>>, [ev.cfg EXCEPT !.target_column = ""],
         IF "base" \in DOMAIN ev THEN forests[ev.base].hex ELSE "", IF "seed" \in DOMAIN ev THEN ev.seed ELSE 1234567, ev.threads,
         \* numbers of the configuration lose their fractions when read
         ev.lam4, ev.minh4, ev.ming4, ev.shrink8>>
Problem == [trees |-> ev.trees, meta |-> ev.meta, base |-> Base, data |-> Data, features |-> Features, cfg |-> ev.cfg,
            lam4 |-> ev.lam4, minh4 |-> ev.minh4, ming4 |-> ev.ming4, shrink8 |-> ev.shrink8,
            whole |-> "iy" \in DOMAIN ev /\ ev.cfg.loss_func = "mse" /\ (Given("w") => "iw" \in DOMAIN ev)
                      /\ "example_sampling_rate" \notin DOMAIN ev.cfg /\ "feature_sampling_rate" \notin DOMAIN ev.cfg,
            y |-> IF "iy" \in DOMAIN ev THEN ev.iy ELSE <<>>,
            w |-> IF Given("w") THEN ev.iw ELSE [i \in 1..Rows(S) |-> 1]]
TrainStep ==
  IF ~ev.cfgsame THEN Out(ev.ok, stores, handles, forests, {"training changed its arguments"})
  ELSE IF ~Trainable THEN Quiet(FALSE)
  ELSE IF ~ev.ok THEN Quiet(TRUE)
  ELSE LET key == Key IN
       [Out(TRUE, stores, handles, With(forests, ev.f, [hex |-> ev.hex, trees |-> ev.trees]),
               TrainFaults(Problem) \cup Fail(\A m \in trained : m[1] = key => m[2] = ev.hex, "the same training gave another forest"))
           EXCEPT !.tr = trained \cup {<<key, ev.hex>>}]
\* ---- prediction
Used(t) == Names(t)
RowOf(i) == [f \in Used(F.trees) |-> Data[f].v[i]]
ScoresBad == Fail(Len(ev.scores) = Rows(S), "number of scores")
  \cup Fail(\A i \in DOMAIN ev.scores : i > Rows(S) \/ Near(ev.scores[i], Score(F.trees, Len(F.trees), Data, i), 2 + Len(F.trees)), "a score is not the sum of the leaves")
Scored == {<<F.hex, RowOf(i), ev.hexs[i]>> : i \in 1..Rows(S)}
PredictStep ==
  IF ~S.has \/ ~Fits(F.trees, Data) THEN Quiet(FALSE)
  ELSE IF ~ev.ok THEN Quiet(TRUE)
  ELSE LET b == ScoresBad
       IN IF b # {} THEN Out(TRUE, stores, handles, forests, b)
          ELSE [Out(TRUE, stores, handles, forests,
                    Fail(\A x \in Scored, y \in Scored \cup seen : x[1] = y[1] /\ x[2] = y[2] => x[3] = y[3], "the score depends on something else than forest and row"))
                EXCEPT !.sn = seen \cup Scored]
Tol(x) == 1 + Abs(x) \div 190000
Prefix(fo, p, v) == Len(v) = Rows(S) /\ \A i \in DOMAIN v : LET x == Score(fo.trees, p, Data, i) IN Near(v[i], x, Tol(x) + Len(fo.trees))
\* checkpoints of several forests, read in turns; numbers outside the forest are an error
CheckStep ==
  IF \E k \in DOMAIN ev.fs : ~S.has \/ ~Fits(forests[ev.fs[k]].trees, Data)
                             \/ \E j \in DOMAIN ev.points[k] : ev.points[k][j] \notin 1..Len(forests[ev.fs[k]].trees)
  THEN Quiet(FALSE)
  ELSE IF ~ev.ok THEN Quiet(TRUE)
  ELSE Out(TRUE, stores, handles, forests,
           Fail(\A k \in DOMAIN ev.fs : Len(ev.got[k]) = Len(ev.points[k])
                  /\ \A j \in DOMAIN ev.got[k] : ev.got[k][j].p = ev.points[k][j] /\ Prefix(forests[ev.fs[k]], ev.points[k][j], ev.got[k][j].v), "checkpoint scores"))
FilesStep ==
  IF ~S.has \/ ~Fits(F.trees, Data) THEN Quiet(FALSE)
  ELSE IF ~ev.ok THEN Quiet(TRUE)
  ELSE Out(TRUE, stores, handles, forests,
           Fail({ev.got[j].p : j \in DOMAIN ev.got} = Written(ev.points, Len(F.trees)) /\ Cardinality({ev.got[j].p : j \in DOMAIN ev.got}) = Len(ev.got), "checkpoint files")
           \cup Fail(\A j \in DOMAIN ev.got : ev.got[j].p \notin 1..Len(F.trees) \/ Prefix(F, ev.got[j].p, ev.got[j].v), "checkpoint scores"))
ImportanceStep ==
  IF ~ev.ok THEN Quiet(TRUE)
  ELSE Out(TRUE, stores, handles, forests,
           Shares(F.trees, ev.imp)
           \cup Fail(Len(ev.imp) = Len(ev.features) /\ \A i \in DOMAIN ev.imp : ev.imp[i].f = ev.features[i], "features are not in the order of importance"))
\* ---- displays (C26)
FrameStep == Out(TRUE, stores, handles, forests,
                 IF ~ev.ok THEN {} ELSE Fail({ev.frame[i].n : i \in DOMAIN ev.frame} = DOMAIN S.cols /\ Len(ev.frame) = Cardinality(DOMAIN S.cols), "columns of the data frame")
                 \cup Fail(\A i \in DOMAIN ev.frame : ev.frame[i].n \in DOMAIN S.cols => ev.frame[i].v = S.cols[ev.frame[i].n].v, "values of the data frame"))
\* numbers become bucketized columns, other things strings, unless told otherwise
TypeOf(c) == IF c.t = "str" THEN "str"
             ELSE IF \E i \in DOMAIN ev.over : ev.over[i][1] = c.n /\ ev.over[i][2] \in {"float", "raw_float"} THEN "raw"
             ELSE IF \E i \in DOMAIN ev.over : ev.over[i][1] = c.n /\ ev.over[i][2] = "string" THEN "str" ELSE "bkt"
FromFrame == Build([i \in DOMAIN ev.cols |-> LET c == ev.cols[i] IN [n |-> c.n, t |-> TypeOf(c), v |-> IF c.t # "str" /\ TypeOf(c) = "str" THEN c.text ELSE c.v]])
\* the node a name like tree0lr stands for; 0: none
RECURSIVE Walk(_, _, _)
Walk(t, n, path) == IF path = <<>> THEN n ELSE IF t[n].l = 0 THEN 0 ELSE Walk(t, IF Head(path) = "l" THEN t[n].l ELSE t[n].r, Tail(path))
RECURSIVE NamesFrom(_, _, _)
NamesFrom(t, n, name) == {<<name, n>>} \cup IF t[n].l = 0 THEN {} ELSE NamesFrom(t, t[n].l, name \o "l") \cup NamesFrom(t, t[n].r, name \o "r")
Shows1(d, nd, th) == IF nd.l = 0 THEN d.leaf /\ Near(d.s, nd.s, 1)
                     ELSE ~d.leaf /\ Near(d.s, nd.s, 1) /\ d.f = nd.f /\ d.k = nd.k
                          /\ (nd.k = "flt" => d.mr = nd.mr /\ Near(d.th, th, 1)) /\ (nd.k = "cat" => SetOf(d.cats) = SetOf(nd.cats))
DrawStep ==
  LET k == Len(F.trees)
      j == IF ev.i < 0 THEN k + ev.i + 1 ELSE ev.i + 1
  IN IF j \notin 1..k THEN Quiet(FALSE)
     ELSE IF ~ev.ok THEN Quiet(TRUE)
     ELSE LET t == F.trees[j]
              names == NamesFrom(t, 1, "tree" \o ToString(ev.i))
          IN Out(TRUE, stores, handles, forests,
                 Fail(ev.num = k, "number of trees")
                 \cup Fail({ev.nodes[i].name : i \in DOMAIN ev.nodes} = {x[1] : x \in names} /\ Len(ev.nodes) = Cardinality(names), "nodes drawn")
                 \cup Fail(\A x \in names, i \in DOMAIN ev.nodes : ev.nodes[i].name = x[1] => Shows1(ev.nodes[i], t[x[2]], ev.ths[x[2]]), "a node is drawn wrongly")
                 \cup Fail(SetOf(ev.edges) = UNION {IF t[x[2]].l = 0 THEN {} ELSE {<<x[1], x[1] \o "l">>, <<x[1], x[1] \o "r">>} : x \in names}, "edges drawn"))
\* partial dependency: how much the score of the rows changes when the feature is x rather than x0
Set1(f, x) == [n \in DOMAIN S.cols |-> IF n = f THEN [t |-> S.cols[n].t, v |-> [i \in 1..Rows(S) |-> x]] ELSE S.cols[n]]
Change(i, x, x0) == Score(F.trees, Len(F.trees), Set1(ev.n, x), i) - Score(F.trees, Len(F.trees), Set1(ev.n, x0), i)
X0 == IF "x0" \in DOMAIN ev THEN ev.x0 ELSE IF ev.kind = "str" THEN ev.x[1] ELSE NaN
MeanChange(x) == SumUp([i \in 1..Rows(S) |-> Change(i, x, X0)]) \div Rows(S)
\* in hundredths, as squares are large
Hund(i, x) == Change(i, x, X0) \div 100
Spread(x) == LET m == SumUp([i \in 1..Rows(S) |-> Hund(i, x)]) \div Rows(S)
             IN SumUp([i \in 1..Rows(S) |-> (Hund(i, x) - m) * (Hund(i, x) - m)]) \div Rows(S)
Small(x) == \A i \in 1..Rows(S) : Abs(Hund(i, x)) <= 3000
Half(k) == (ev.hi[k] - ev.lo[k]) \div 392     \* the deviation in hundredths: half the band over 1.96
Sorted(q) == \A i \in 2..Len(q) : q[i - 1] <= q[i]
Times(x, q) == Cardinality({i \in DOMAIN q : q[i] = x})
PlotStep ==
  IF ev.n \notin DOMAIN S.cols \/ S.cols[ev.n].t = "raw" \/ ~Fits(F.trees, S.cols) \/ S.cols[ev.n].t # (IF ev.kind = "str" THEN "str" ELSE "bkt") THEN Quiet(FALSE)
  ELSE IF ~ev.ok THEN Quiet(TRUE)
  ELSE IF Rows(S) = 0 THEN Quiet(TRUE)
  ELSE Out(TRUE, stores, handles, forests,
           Fail(Len(ev.px) = Len(ev.x) /\ \A x \in SetOf(ev.x) : Times(x, ev.px) = Times(x, ev.x), "values plotted")
           \cup Fail(IF ev.kind = "str" THEN Sorted(ev.mean) ELSE Sorted(ev.px), "order of the values plotted")
           \cup Fail(\A k \in DOMAIN ev.px : ev.px[k] \notin SetOf(ev.x) \/ Near(ev.mean[k], MeanChange(ev.px[k]), 3 + Len(F.trees)), "mean change")
           \cup Fail(\A k \in DOMAIN ev.px : Near(ev.hi[k] - ev.mean[k], ev.mean[k] - ev.lo[k], 3), "band around the mean")
           \cup Fail(\A k \in DOMAIN ev.px : ev.px[k] \notin SetOf(ev.x) \/ ~Small(ev.px[k]) \/ LET v == Spread(ev.px[k]) IN Half(k) <= 5000 /\ Near(Half(k) * Half(k), v, 6 * (Half(k) + 4)), "width of the band"))
ChartStep == IF ~ev.ok THEN Quiet(TRUE)
             ELSE Out(TRUE, stores, handles, forests, Shares(F.trees, ev.imp) \cup Fail(\A i \in DOMAIN ev.ind : ev.ind[i] = 1 - i, "bars from top to bottom")
                                                      \cup Fail(Len(ev.ind) = Len(ev.imp) /\ ev.ticks = ev.ind, "one bar for each feature"))
NewForest(id, f, bad) == Out(TRUE, stores, handles, With(forests, id, f), bad)
First(v, k) == SubSeq(v, 1, Min2(k, Len(v)))
Effect ==
  CASE ev.e = "new" -> Out(TRUE, With(stores, ev.s, Nothing), handles, forests, {})
    [] ev.e = "add" -> InStore(ev.s, Put(S, ev.n, ev.t, ev.v))
    [] ev.e = "addbad" -> Quiet(FALSE)
    [] ev.e = "erase" -> Out(TRUE, With(stores, ev.s, Erase(S, ev.n)), handles, forests, {})
    [] ev.e = "clear" -> Out(TRUE, With(stores, ev.s, Nothing), handles, forests, {})
    [] ev.e \in {"load", "fromtsvs"} -> InStore(ev.s, Loaded)
    [] ev.e = "fromdict" -> InStore(ev.s, Build(ev.cols))
    [] ev.e = "copy" -> InStore(ev.to, Slice(S, Upto(Rows(S))))
    [] ev.e = "slice" -> InStore(ev.to, Slice(S, ev.idx))
    [] ev.e = "get" -> Taken(ev.n)
    [] ev.e = "tget" -> IF ev.n \in DOMAIN S.cols /\ S.cols[ev.n].t = ev.t THEN Taken(ev.n) ELSE Quiet(FALSE)
    [] ev.e = "type" -> IF ev.n \notin DOMAIN S.cols THEN Quiet(FALSE)
                        ELSE Out(TRUE, stores, handles, forests, Fail(~ev.ok \/ ev.type = S.cols[ev.n].t, "type of a column"))
    [] ev.e = "at" -> IF ev.i < 0 \/ ev.i >= Len(H.v) THEN Quiet(FALSE)
                      ELSE Out(TRUE, stores, handles, forests, Fail(~ev.ok \/ ev.x = H.v[ev.i + 1], "an element of a column"))
    [] ev.e = "reprh" -> Out(TRUE, stores, handles, forests,
                             Fail(~ev.ok \/ (ev.shape /\ ev.more = (Len(H.v) > 10) /\ ev.v = First(H.v, 10)), "representation of a column"))
    \* besides the values, a bucket of missing ones and one above all
    [] ev.e = "buckets" -> IF H.t # "bkt" THEN Quiet(FALSE)
                           ELSE Out(TRUE, stores, handles, forests,
                                    Fail(~ev.ok \/ {ev.b[i] : i \in DOMAIN ev.b} \ {<<NaN, NaN>>, <<2139095039, 2139095039>>} = {<<x, x>> : x \in SetOf(H.v) \ {NaN}}, "buckets of a column"))
    [] ev.e = "dropstore" -> Out(TRUE, Without(stores, ev.s), handles, forests, {})
    [] ev.e = "drophandle" -> Out(TRUE, stores, Without(handles, ev.h), forests, {})
    [] ev.e = "churn" -> Quiet(TRUE)
    [] ev.e = "bogus" -> Quiet(FALSE)
    [] ev.e = "train" -> TrainStep
    [] ev.e = "forest" -> IF ev.ok THEN NewForest(ev.f, [hex |-> ev.hex, trees |-> ev.trees], Fail(ev.trees = ev.want, "another forest than in the text"))
                          ELSE Quiet(TRUE)
    [] ev.e = "reload" -> IF ev.ok THEN NewForest(ev.to, F, Fail(ev.trees = F.trees, "reloading changed the forest")) ELSE Quiet(TRUE)
    [] ev.e = "predict" -> PredictStep
    [] ev.e = "check" -> CheckStep
    [] ev.e = "files" -> FilesStep
    [] ev.e = "importance" -> ImportanceStep
    [] ev.e = "todf" -> FrameStep
    [] ev.e = "fromdf" -> InStore(ev.s, FromFrame)
    [] ev.e = "viz" -> DrawStep
    [] ev.e = "pdp" -> PlotStep
    [] ev.e = "chart" -> ChartStep
    [] OTHER -> Out(TRUE, stores, handles, forests, {ToString(ev.e)})
Open == /\ ev.e = "Open" /\ live' = TRUE /\ stores' = Nowhere /\ handles' = Nowhere /\ forests' = Nowhere /\ trained' = {} /\ seen' = {}
Gone == ev.e \in {"Crash", "Hang", "Senseless"}
Ended == Gone /\ Reject(l, {ev.e}) /\ live' = FALSE /\ UNCHANGED <<stores, handles, forests, trained, seen>>
Step ==
  /\ ev.e # "Open" /\ live /\ ~Gone
  /\ LET x == Effect
              bad == Fail(ev.ok = x.ok, IF x.ok THEN ev.e \o " failed" ELSE ev.e \o " did not fail") \cup x.bad \cup Shows(ev, x.ss, x.hs, x.fs)
          IN /\ Judge(l, bad) /\ live' = (bad = {})
             /\ stores' = x.ss /\ handles' = x.hs /\ forests' = x.fs /\ trained' = x.tr /\ seen' = x.sn
Skip == ev.e # "Open" /\ ~live /\ ~Gone /\ UNCHANGED <<live, stores, handles, forests, trained, seen>>
TInit == l = 1 /\ live = FALSE /\ stores = Nowhere /\ handles = Nowhere /\ forests = Nowhere /\ trained = {} /\ seen = {}
TNext == l <= Len(Trace) /\ (Open \/ Step \/ Skip \/ Ended) /\ l' = l + 1
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
