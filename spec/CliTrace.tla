------------------------------ MODULE CliTrace ------------------------------
(* Recorded runs of the program against Cli, Evaluate, Boosting and Trees.   *)
(* Every event shows the models and scores of all directories afterwards.    *)
EXTENDS Cli, TrainCheck
VARIABLES l, live, tables, models, scores, trained, seen
ev == Trace[l]
tvars == <<l, live, tables, models, scores, trained, seen>>
Nowhere == [x \in {} |-> 0]
Tab(q) == [n \in {q[i].n : i \in DOMAIN q} |-> LET c == q[CHOOSE i \in DOMAIN q : q[i].n = n] IN [t |-> c.t, v |-> c.v, i |-> c.i]]
T == tables[ev.table]
C == ev.cfg
D == Seen(C, T, ev.fmt)
Rows(t) == Len(t[CHOOSE n \in DOMAIN t : TRUE].v)
Loaded == Loads(C, T, ev.fmt)
\* ---- training
Based == "base" \in DOMAIN ev
Base == IF Based THEN models[ev.base].trees ELSE <<>>
Column(n) == D[n].v
Whole1(n) == D[n].i # <<>>
Positive(x) == x # NaN /\ x > 0
One == 1065353216
Y == IF C.binarize_target THEN [i \in 1..Rows(T) |-> IF Positive(Column(C.target_column)[i]) THEN One ELSE 0 - One] ELSE Column(C.target_column)
WholeY == IF C.binarize_target THEN [i \in 1..Rows(T) |-> IF Positive(Column(C.target_column)[i]) THEN 1 ELSE -1] ELSE D[C.target_column].i
Binary == {"logloss", "huberized_hinge"}
Pairwise == {"auc", "pairwise_logloss", "gbrank", "lambdamart"}
Trainable ==
  /\ ev.settings /\ Loaded
  /\ \A f \in Features(C) : Has(D, f, {"bkt", "str", "raw"})
  /\ Has(D, C.target_column, {"raw"})
  /\ C.weight_column # "" => Has(D, C.weight_column, {"raw"})
  /\ C.group_column # "" => Has(D, C.group_column, {"str"})
  /\ C.loss_func \in {"mse"} \cup Binary \cup Pairwise
  /\ C.loss_func \in Binary => \A i \in DOMAIN Y : Y[i] \in {One, 0 - One}
  /\ C.loss_func \in Pairwise /\ C.group_column # "" => \A i \in 1..Rows(T) : Column(C.group_column)[i] # "__missing__"
  /\ Fits(Base, D)
\* a raw float column among the features may be refused or passed over
Usable == {f \in Features(C) : D[f].t # "raw"}
W == IF C.weight_column = "" THEN <<>> ELSE Column(C.weight_column)
\* columns with their names, as the order of features depends on them
Key == <<[f \in Features(C) |-> D[f]], Y, W, IF C.group_column = "" THEN <<>> ELSE Column(C.group_column), ev.cfgkey,
         IF Based THEN models[ev.base].hex ELSE "", IF "seed" \in DOMAIN ev THEN ev.seed ELSE 1234567, ev.threads>>
Problem == [trees |-> ev.trees, meta |-> ev.meta, base |-> Base, data |-> D, features |-> Usable, cfg |-> C,
            lam4 |-> ev.lam4, minh4 |-> ev.minh4, ming4 |-> ev.ming4, shrink8 |-> ev.shrink8,
            whole |-> C.loss_func = "mse" /\ ev.exact /\ WholeY # <<>> /\ (C.weight_column # "" => Whole1(C.weight_column)),
            y |-> WholeY, w |-> IF C.weight_column # "" THEN D[C.weight_column].i ELSE [i \in 1..Rows(T) |-> 1]]
\* ---- what is shown afterwards
At(m) == <<m.d, m.n>>
Shown == [x \in {At(ev.models[i]) : i \in DOMAIN ev.models} |-> ev.models[CHOOSE i \in DOMAIN ev.models : At(ev.models[i]) = x]]
ShownScores == [x \in {<<ev.scores[i].d, ev.scores[i].p>> : i \in DOMAIN ev.scores} |->
                  ev.scores[CHOOSE i \in DOMAIN ev.scores : <<ev.scores[i].d, ev.scores[i].p>> = x].h]
Same(m, o) == m.raw = o.raw /\ m.imp = o.imp
ModelsKept(but) == Fail(DOMAIN Shown \ but = DOMAIN models \ but, "models") \cup
                   Fail(\A x \in DOMAIN Shown \ but : x \in DOMAIN models => Same(models[x], Shown[x]), "another model changed")
ScoresKept(but) == Fail(DOMAIN ShownScores \ but = DOMAIN scores \ but, "score files") \cup
                   Fail(\A x \in DOMAIN ShownScores \ but : x \in DOMAIN scores => ShownScores[x] = scores[x], "another score file changed")
Odd == Fail(ev.odd = <<>>, "unexpected files")
\* ---- one run
Out(ok, bad, ms, ss) == [ok |-> ok, bad |-> bad, ms |-> ms, ss |-> ss, tr |-> trained, sn |-> seen]
Refused == Out(FALSE, ModelsKept({}) \cup ScoresKept({}) \cup Odd, models, scores)
\* nothing is written to a full device when there is no importance
Failing == StageOf(ev.defect) # "none" /\ ~ev.vacuous
TrainStep ==
  IF Failing THEN Refused
  ELSE IF ~Trainable THEN Refused
  ELSE IF ev.vacuous THEN Out(TRUE, {}, models, scores)
  ELSE IF ev.what # "ok" THEN IF Usable # Features(C) THEN Refused ELSE Out(TRUE, {}, models, scores)
  ELSE IF ~ev.read THEN Out(TRUE, {"no readable model and importances"}, models, scores)
  ELSE LET x == <<ev.dir, ev.name>>
           key == Key
           bad == Fail(x \in DOMAIN Shown, "no model") \cup ModelsKept({x}) \cup ScoresKept({}) \cup Odd
                  \cup TrainFaults(Problem) \cup Shares(ev.trees, ev.imp)
       IN IF x \notin DOMAIN Shown THEN Out(TRUE, bad, models, scores)
          ELSE [Out(TRUE, bad \cup Fail(\A m \in trained : m[1] = key => m[2] = Shown[x].hex, "the same training gave another forest"),
                    With(models, x, [raw |-> Shown[x].raw, imp |-> Shown[x].imp, hex |-> Shown[x].hex, trees |-> ev.trees]), scores)
                  EXCEPT !.tr = trained \cup {<<key, Shown[x].hex>>}]
Tol(x) == 1 + Abs(x) \div 190000
Prefix(trees, p, v) == Len(v) = Rows(T) /\ \A i \in DOMAIN v : LET x == Score(trees, p, D, i) IN Near(v[i], x, Tol(x) + Len(trees))
\* flat files of which none is read do not tell the number of rows
RowsKnown == Names(models[ev.model].trees) # {} \/ (IF ev.fmt = "flat" THEN Features(C) \cap DOMAIN T # {} ELSE Names1(C) # {})
TestStep ==
  IF Failing THEN Refused
  ELSE IF ~Loaded \/ ~RowsKnown \/ ~Fits(models[ev.model].trees, D) THEN Refused
  ELSE IF ev.what # "ok" THEN Out(TRUE, {}, models, scores)
  ELSE LET m == models[ev.model]
           new == Written(TestPoints(C.eval_interval, Len(m.trees)), Len(m.trees))
           files == {<<ev.dir, p>> : p \in new}
           mine == {ev.got[i] : i \in {j \in DOMAIN ev.got : ev.got[j].p \in new}}
           now == {<<m.hex, T, g.p, g.h>> : g \in mine}
       IN [Out(TRUE, ModelsKept({}) \cup ScoresKept(files) \cup Odd
                     \cup Fail({g.p : g \in mine} = new, "score files of the intervals")
                     \cup Fail(\A g \in mine : Prefix(m.trees, g.p, g.v), "scores")
                     \cup Fail(\A a \in now, b \in seen : a[1] = b[1] /\ a[2] = b[2] /\ a[3] = b[3] => a[4] = b[4], "the scores depend on something else than model and rows"),
               models, ShownScores) EXCEPT !.sn = seen \cup now]
Open == /\ ev.e = "Open" /\ live' = TRUE /\ tables' = [i \in DOMAIN ev.tables |-> Tab(ev.tables[i])]
        /\ models' = Nowhere /\ scores' = Nowhere /\ trained' = {} /\ seen' = {}
Gone == ev.e \notin {"Open", "train", "test"}
Ended == Gone /\ Reject(l, {ev.e}) /\ live' = FALSE /\ UNCHANGED <<tables, models, scores, trained, seen>>
Step ==
  /\ ~Gone /\ ev.e # "Open" /\ live
  /\ LET x == IF ev.e = "train" THEN TrainStep ELSE TestStep
         bad == Fail(ev.what \in {"ok", "fail"}, ev.what) \cup Fail((ev.what = "ok") = x.ok, IF x.ok THEN ev.e \o " failed" ELSE ev.e \o " did not fail") \cup x.bad
     IN /\ Judge(l, bad) /\ live' = (bad = {})
        /\ models' = x.ms /\ scores' = x.ss /\ trained' = x.tr /\ seen' = x.sn /\ UNCHANGED tables
Skip == ~Gone /\ ev.e # "Open" /\ ~live /\ UNCHANGED <<live, tables, models, scores, trained, seen>>
TInit == l = 1 /\ live = FALSE /\ tables = <<>> /\ models = Nowhere /\ scores = Nowhere /\ trained = {} /\ seen = {}
TNext == l <= Len(Trace) /\ (Open \/ Step \/ Skip \/ Ended) /\ l' = l + 1
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
