-------------------------- MODULE ThreadPoolClient ---------------------------
(* ThreadPool driven by a bounded client: submitters -1, -2, .. hand in      *)
(* their tasks in order, tasks hand in their sub-tasks while running, a task *)
(* ends only after the tasks it needs have started.                          *)
EXTENDS ThreadPool
CONSTANTS NWorkers,
          From,      \* task -> submitter (negative) or task (positive) that hands it in
          Needs,     \* task -> tasks that must have started before it can end
          Await      \* the pool is destroyed only after all tasks have ended
Tasks == DOMAIN From
Siblings(i) == {j \in Tasks : From[j] = From[i] /\ j < i}
MayCall(i) == /\ Siblings(i) \subseteq ret
              /\ IF From[i] < 0 THEN pool = "open" ELSE ph[From[i]] = "running"
Started(i) == ph[i] \in {"running", "done"}
MayEnd(i) == /\ \A j \in Needs[i] : Started(j)
             /\ \A j \in Tasks : From[j] = i => j \in ret
CInit == /\ nw = NWorkers /\ ph = [i \in Tasks |-> "none"] /\ ret = {} /\ queue = <<>>
         /\ by = [i \in Tasks |-> 0] /\ pool = "open"
CCall(i) == MayCall(i) /\ Call(i)
CEnd(i) == MayEnd(i) /\ \E w \in 1..nw : End(i, w)
CRun(i) == \E w \in 1..nw : Run(i, w)
CClose == /\ \A i \in Tasks : From[i] < 0 => i \in ret
          /\ Await => \A i \in Tasks : ph[i] = "done"
          /\ Close
CNext == \/ \E i \in Tasks : CCall(i) \/ Push(i) \/ Ret(i) \/ CRun(i) \/ CEnd(i)
         \/ Take \/ CClose \/ Closed(0)
Fair == /\ \A i \in Tasks : WF_avars(CCall(i)) /\ WF_avars(Push(i)) /\ WF_avars(Ret(i)) /\ WF_avars(CRun(i)) /\ WF_avars(CEnd(i))
        /\ WF_avars(Take) /\ WF_avars(CClose) /\ WF_avars(Closed(0))
CSpec == CInit /\ [][CNext]_avars /\ Fair
OnceOnly == \A i \in Tasks : [][ph[i] = "done" => ph'[i] = "done"]_avars
FifoTake == [][\A i, j \in Tasks : (\E a, b \in DOMAIN queue : a < b /\ queue[a] = i /\ queue[b] = j)
                 /\ ph'[j] = "held" => ph'[i] # "queued"]_avars
Finishes == <>(pool = "closed" /\ \A i \in Tasks : ph[i] = "done")
=============================================================================
