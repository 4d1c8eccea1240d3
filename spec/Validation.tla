------------------------------ MODULE Validation ------------------------------
(* Which training and evaluation requests are to be refused (C21), and what  *)
(* a sequence of them may do to a store.  A request is a record of kinds of  *)
(* values; "good" values are interchangeable as far as acceptance goes.      *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Pointwise == {"mse", "logloss", "huberized_hinge"}
PairLosses == {"auc", "pairwise_logloss", "gbrank", "lambdamart"}
Losses == Pointwise \cup PairLosses
Binary == {"logloss", "huberized_hinge"}
Counts == {-1, 0, 1, 3}
Rates == {"neg", "zero", "tiny", "half", "one", "above", "two", "nan"}
PairRates == {"neg", "zero", "tiny", "half", "two", "nan", "inf"}
Groups == {"none", "str", "gone", "bkt", "raw", "gap"}
Features == {"good", "gone", "raw", "empty", "broken"}
Bases == {"none", "good", "gone", "othertype", "nosplit", "raw", "broken"}
BadBases == {"gone", "othertype", "nosplit", "raw", "broken"}
Targets == {"binary", "graded", "nan", "near", "far"}
Weights == {"ones", "some"}
\* ---- defects of a request, each by itself reason to refuse ----------------
RateOK(r) == r \in {"tiny", "half", "one"}
Defects(q) ==
       (IF q.trees <= 0 THEN {"num_trees"} ELSE {})
  \cup (IF q.leaves <= 0 THEN {"num_leaves"} ELSE {})
  \cup (IF RateOK(q.ex) THEN {} ELSE {"example_sampling_rate"})
  \cup (IF RateOK(q.ft) THEN {} ELSE {"feature_sampling_rate"})
  \cup (IF q.loss \in Losses THEN {} ELSE {"loss_func"})
  \cup (IF q.loss \in PairLosses /\ q.pair \in {"neg", "zero", "nan", "inf"} THEN {"pair_sampling_rate"} ELSE {})
  \cup (IF q.features \in {"gone", "broken"} THEN {"feature missing"} ELSE {})
  \cup (IF q.group \in {"gone", "bkt", "raw"} THEN {"group column"} ELSE {})
  \cup (IF q.group = "gap" /\ q.loss \in PairLosses THEN {"group missing in a row"} ELSE {})
  \cup (IF q.base \in BadBases THEN {"base forest"} ELSE {})
  \cup (IF q.loss \in Binary /\ q.target # "binary" THEN {"binary targets"} ELSE {})
  \cup (IF q.target = "nan" THEN {"no target"} ELSE {})
Refused(q) == Defects(q) # {}
\* a raw float column among the features may be refused or passed over
Either(q) == q.features = "raw"
EvalRefused(base) == base \in BadBases
\* ---- the order in which the code looks at a request -----------------------
Good(loss) == [trees |-> 1, leaves |-> 3, ex |-> "one", ft |-> "one", loss |-> loss, pair |-> "two", group |-> "none", features |-> "good", base |-> "none", target |-> "binary"]
Stages == << {"loss_func"}, {"num_trees"}, {"num_leaves"}, {"example_sampling_rate"}, {"feature_sampling_rate"}, {"feature missing"}, {"base forest"}, {"group column"},
             {"binary targets"}, {"pair_sampling_rate"}, {"group missing in a row"}, {"no target"} >>
\* ---- every request which differs from a good one in at most two settings --
Dims == {"trees", "leaves", "ex", "ft", "pair", "group", "features", "base", "target"}
Values(d) == CASE d \in {"trees", "leaves"} -> Counts [] d \in {"ex", "ft"} -> Rates [] d = "pair" -> PairRates [] d = "group" -> Groups
               [] d = "features" -> Features [] d = "base" -> Bases [] OTHER -> Targets
LossNames == Losses \cup {"", "MSE", "lambdarank"}
Requests(loss) == UNION {UNION {{[Good(loss) EXCEPT ![d] = v, ![e] = x] : v \in Values(d), x \in Values(e)} : e \in Dims} : d \in Dims}
\* ---- a session: requests one after the other on one store -----------------
CONSTANTS Loss, MaxCalls
Reqs == Requests(Loss)
VARIABLES req, stage, verdict, store, calls
vars == <<req, stage, verdict, store, calls>>
Init == req = Good(Loss) /\ stage = 0 /\ verdict = "none" /\ store = "as built" /\ calls = 0
Ask == /\ stage = 0 /\ calls < MaxCalls
       /\ req' \in Reqs /\ stage' = 1 /\ verdict' = "none" /\ calls' = calls + 1 /\ UNCHANGED store
Check == /\ stage \in 1..Len(Stages)
         /\ IF Stages[stage] \cap Defects(req) # {}
            THEN verdict' = "refused" /\ stage' = 0
            ELSE IF stage = Len(Stages) THEN verdict' = "trained" /\ stage' = 0 ELSE stage' = stage + 1 /\ UNCHANGED verdict
         /\ UNCHANGED <<req, store, calls>>
Next == Ask \/ Check
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
VerdictRight == stage = 0 /\ calls > 0 => verdict = IF Refused(req) THEN "refused" ELSE "trained"
StoreUsable == store = "as built"
Answered == []<>(stage = 0)
=============================================================================
