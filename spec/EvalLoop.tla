------------------------------ MODULE EvalLoop -------------------------------
(* How checkpoints are evaluated: points below 1 are dropped, the rest sorted, trees are added one *)
(* by one to the scores, and whenever the number of trees added is the next  *)
(* point a file is written.  For every list of points this writes exactly    *)
(* the files Evaluate asks for, each with the scores of its prefix.          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt
CONSTANTS MaxSize, MaxPoints, Low, High
VARIABLES size, given, points, i, score, files, st
vars == <<size, given, points, i, score, files, st>>
Leaf(t) == 2 * t + 1                       \* what tree t contributes
RECURSIVE Prefix(_)
Prefix(k) == IF k = 0 THEN 0 ELSE Prefix(k - 1) + Leaf(k)
Init == /\ size \in 0..MaxSize /\ given \in UNION {[1..m -> Low..High] : m \in 0..MaxPoints}
        /\ points = <<>> /\ i = 0 /\ score = 0 /\ files = {} /\ st = "sort"
Sort == st = "sort" /\ points' = SortSeq(SelectSeq(given, LAMBDA p : p >= 1), <) /\ st' = "add" /\ UNCHANGED <<size, given, i, score, files>>
Add == /\ st = "add" /\ i < size /\ points # <<>> /\ score' = score + Leaf(i + 1) /\ i' = i + 1 /\ st' = "write"
       /\ UNCHANGED <<size, given, points, files>>
Write == /\ st = "write" /\ files' = IF i = Head(points) THEN files \cup {<<i, score>>} ELSE files
         /\ points' = SelectSeq(points, LAMBDA p : p > i) /\ st' = "add" /\ UNCHANGED <<size, given, i, score>>
Done == st = "add" /\ (i = size \/ points = <<>>)
Next == Sort \/ Add \/ Write
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Asked == {given[k] : k \in DOMAIN given} \cap (1..size)
FilesAreRight == files \subseteq {<<p, Prefix(p)>> : p \in Asked}
AllWritten == Done => files = {<<p, Prefix(p)>> : p \in Asked}
Ends == <>Done
=============================================================================
