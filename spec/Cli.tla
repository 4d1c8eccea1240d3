-------------------------------- MODULE Cli ---------------------------------
(* The command line program (C25): a run reads a configuration, data and     *)
(* perhaps a model, and leaves files; a run with a defect fails.             *)
EXTENDS Integers, Sequences, FiniteSets, TLC
\* the stages of a run, in order; files change only in the last ones
Stages(op) == IF op = "train" THEN <<"flags", "config", "data", "base", "loss", "fit", "save", "imps">>
              ELSE <<"flags", "config", "base", "data", "fit", "score">>
Writing == {"save", "imps", "score"}
\* where a defect shows
StageOf(defect) ==
  CASE defect \in {"mode", "noconfig", "noout", "nomodel"} -> "flags"
    [] defect \in {"configgone", "configdir", "configempty", "configsyntax", "configtype"} -> "config"
    [] defect \in {"nodata", "datagone", "datadir", "float", "width", "column", "rows", "dtype"} -> "data"
    [] defect \in {"modelgone", "modeldir", "modelempty", "modelsyntax"} -> "base"
    [] defect = "loss" -> "loss"
    [] defect \in {"settings", "misfit"} -> "fit"
    [] defect \in {"outgone", "outfile", "full", "isdir"} -> "save"
    [] defect \in {"fullimps", "isdirimps"} -> "imps"
    [] defect \in {"fullscore", "isdirscore"} -> "score"
    [] OTHER -> "none"
\* functions as maps
With(m, k, x) == [y \in DOMAIN m \cup {k} |-> IF y = k THEN x ELSE m[y]]
\* ---- tables: a function from names to [t, v]; what a run sees of one
Str(q) == {q[i] : i \in DOMAIN q}
Given(x) == IF x = "" THEN {} ELSE {x}
Asked(c) == {<<n, "bkt">> : n \in Str(c.float_feature)}
       \cup {<<n, "raw">> : n \in Str(c.additional_float_column) \cup Given(c.target_column) \cup Given(c.weight_column)}
       \cup {<<n, "str">> : n \in Str(c.categorical_feature) \cup Given(c.group_column) \cup Str(c.additional_string_column)}
Names1(c) == {a[1] : a \in Asked(c)}
\* TSVs are loaded at once, as configured; flat files on demand, as they are
Loads(c, tab, fmt) == fmt = "flat" \/ (Names1(c) \subseteq DOMAIN tab /\ \A a, b \in Asked(c) : a[1] = b[1] => a = b)
Seen(c, tab, fmt) == IF fmt = "flat" THEN tab
                     ELSE [n \in Names1(c) |-> [tab[n] EXCEPT !.t = (CHOOSE a \in Asked(c) : a[1] = n)[2]]]
Features(c) == Str(c.float_feature) \cup Str(c.categorical_feature)
Has(d, n, ts) == n \in DOMAIN d /\ d[n].t \in ts
=============================================================================
