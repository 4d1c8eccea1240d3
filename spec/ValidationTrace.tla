--------------------------- MODULE ValidationTrace ---------------------------
(* Recorded sessions of training and evaluation requests (C21).              *)
EXTENDS TraceLib
V == INSTANCE Validation WITH Loss <- "mse", MaxCalls <- 0, req <- 0, stage <- 0, verdict <- 0, store <- 0, calls <- 0
VARIABLE l
ev == Trace[l]
Size == 1 + ev.q.trees + (IF ev.q.base = "good" THEN ev.basetrees ELSE 0)
Trained ==
       Fail(ev.ntrees = Size, "the forest has another number of trees")
  \cup Fail(ev.maxleaves <= Max2(ev.q.leaves, ev.baseleaves), "a tree has too many leaves")
  \cup Fail(ev.finite, "a score is not finite")
  \cup Fail(ev.known, "the forest uses something else than the features")
  \cup Fail(ev.eval = "OK", "the forest trained cannot be evaluated")
Train ==
     Fail(ev.same, "the data store changed")
  \cup IF V!Refused(ev.q) THEN Fail(~ev.ok, "accepted: " \o ToString(V!Defects(ev.q)))
       ELSE IF ev.ok THEN Trained
       ELSE Fail(V!Either(ev.q), "refused without reason: " \o ev.code)
Eval == Fail(ev.same, "the data store changed")
  \cup IF V!EvalRefused(ev.base) THEN Fail(~ev.ok /\ ~ev.okfiles, "evaluated a forest which does not fit") \cup Fail(ev.files = 0, "wrote scores all the same")
       ELSE Fail(ev.ok /\ ev.okfiles, "refused a forest which fits")
\* a good training after whatever came before equals the one on a fresh store
Again == Fail(ev.ok /\ ev.equal, "a good training no longer gives what it gave on a fresh store")
\* want: "ok" with the values sent, or "no"
JsonText == IF ev.want = "no" THEN Fail(~ev.ok, "accepted malformed text") ELSE Fail(ev.ok /\ ev.equal, "refused or changed well-formed text")
Bad == CASE ev.e = "Train" -> Train [] ev.e = "Eval" -> Eval [] ev.e = "Again" -> Again [] ev.e = "Json" -> JsonText
         [] OTHER -> {ToString(ev)}
TInit == l = 1
TNext == l <= Len(Trace) /\ Judge(l, Bad) /\ l' = l + 1
TSpec == TInit /\ [][TNext]_l
=============================================================================
