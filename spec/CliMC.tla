-------------------------------- MODULE CliMC -------------------------------
(* Runs of the program stage by stage, for model checking and for generating *)
(* one history per kind of run in every state of the directory.              *)
EXTENDS Cli, Json
CONSTANTS Data, Names, Defects, Deep
VARIABLES models, imps, scores, run, at, result, before, hist
vars == <<models, imps, scores, run, at, result, before>>
None == [x \in {} |-> 0]
Idle == [op |-> "none"]
Files == <<models, imps, scores>>
Init == models = None /\ imps = None /\ scores = None /\ run = Idle /\ at = 0 /\ result = "none" /\ before = <<None, None, None>> /\ hist = <<>>
\* a model is the data it was trained on and the model it continues
Depth(m) == Len(m)
Runs == [op : {"train"}, data : Data, fmt : {"tsv", "flat"}, from : Names \cup {""}, name : Names, defect : Defects]
        \cup [op : {"test"}, data : Data, fmt : {"tsv", "flat"}, from : Names, name : {""}, defect : Defects]
Applies(r) == r.defect = "none"
              \/ /\ StageOf(r.defect) \in {Stages(r.op)[i] : i \in DOMAIN Stages(r.op)}
                 /\ (StageOf(r.defect) = "base" => r.from # "")
                 /\ (r.defect = "nomodel" => r.op = "test")
                 /\ (r.defect \in {"float", "width"} => r.fmt = "tsv")
                 /\ (r.defect \in {"rows", "dtype"} => r.fmt = "flat" /\ r.op = "train")
Begin(r) == /\ at = 0 /\ Applies(r)
            /\ (r.from = "" \/ r.from \in DOMAIN models)
            /\ (r.op = "train" /\ r.from # "" => Depth(models[r.from]) < Deep)
            /\ run' = r /\ at' = 1 /\ result' = "none" /\ before' = Files
            /\ UNCHANGED <<models, imps, scores>> /\ hist' = Append(hist, r)
Made == Append(IF run.from = "" THEN <<>> ELSE before[1][run.from], run.data)
Stage == Stages(run.op)[at]
Advance ==
  /\ at > 0 /\ UNCHANGED <<hist, run, before>>
  /\ IF StageOf(run.defect) = Stage
     THEN result' = "fail" /\ at' = 0 /\ UNCHANGED <<models, imps, scores>>
     ELSE /\ models' = IF Stage = "save" THEN With(models, run.name, Made) ELSE models
          /\ imps' = IF Stage = "imps" THEN With(imps, run.name, Made) ELSE imps
          /\ scores' = IF Stage = "score" THEN With(scores, run.from, <<models[run.from], run.data>>) ELSE scores
          /\ IF at = Len(Stages(run.op)) THEN at' = 0 /\ result' = "ok" ELSE at' = at + 1 /\ UNCHANGED result
Next == (\E r \in Runs : Begin(r)) \/ Advance
Spec == Init /\ [][Next]_<<vars, hist>> /\ WF_<<vars, hist>>(Advance)
View == vars
\* ---- properties
FailsWithDefect == at = 0 /\ result # "none" => (result = "fail" <=> run.defect # "none")
NothingUnlessWriting == at = 0 /\ result = "fail" /\ StageOf(run.defect) \notin {"imps", "score"} => Files = before
Complete == at = 0 /\ result = "ok" /\ run.op = "train" => models[run.name] = Made /\ imps[run.name] = Made
OthersKept == at = 0 /\ result # "none" =>
                /\ \A n \in DOMAIN before[1] : run.op = "test" \/ n # run.name => models[n] = before[1][n] /\ (n \in DOMAIN before[2] => imps[n] = before[2][n])
                /\ \A n \in DOMAIN before[3] : run.op = "train" \/ n # run.from => scores[n] = before[3][n]
Ends == (at > 0) ~> (at = 0)
\* ---- histories: the state between runs matters, not how it came about
GenView == <<models, scores, run, at>>
Emit == (at > 0 /\ at' = 0) => PrintT("HIST " \o ToJson(hist'))
=============================================================================
