----------------------------- MODULE ThreadPool -----------------------------
(* The worker pool as its users see it (C01).  Tasks are handed in by calls  *)
(* (several threads, or running tasks, may call); a call puts its task into  *)
(* the queue at one moment; workers take tasks from the head of the queue,   *)
(* run them, and the destruction of the pool ends when all tasks have ended  *)
(* and no worker is left.                                                    *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES nw,        \* number of workers
          ph,        \* task -> "none", "called", "queued", "held", "running", "done"
          ret,       \* tasks whose call has returned
          queue,     \* tasks waiting, in order of submission
          by,        \* task -> worker running it (0: none)
          pool       \* "open", "closing", "closed"
avars == <<nw, ph, ret, queue, by, pool>>
In(s) == {i \in DOMAIN ph : ph[i] = s}
Occupied == In("held") \cup In("running")
Start0(w, n) == /\ nw' = w /\ ph' = [i \in 1..n |-> "none"] /\ ret' = {} /\ queue' = <<>>
                /\ by' = [i \in 1..n |-> 0] /\ pool' = "open"
\* ---- visible steps ------------------------------------------------------------
Call(i) == /\ i \in DOMAIN ph /\ ph[i] = "none" /\ pool # "closed"
           /\ ph' = [ph EXCEPT ![i] = "called"] /\ UNCHANGED <<nw, ret, queue, by, pool>>
Ret(i) == /\ i \in DOMAIN ph /\ ph[i] \notin {"none", "called"} /\ i \notin ret /\ pool # "closed"
          /\ ret' = ret \cup {i} /\ UNCHANGED <<nw, ph, queue, by, pool>>
Run(i, w) == /\ i \in DOMAIN ph /\ ph[i] = "held" /\ \A j \in In("running") : by[j] # w
             /\ ph' = [ph EXCEPT ![i] = "running"] /\ by' = [by EXCEPT ![i] = w]
             /\ UNCHANGED <<nw, ret, queue, pool>>
End(i, w) == /\ i \in DOMAIN ph /\ ph[i] = "running" /\ by[i] = w
             /\ ph' = [ph EXCEPT ![i] = "done"] /\ UNCHANGED <<nw, ret, queue, by, pool>>
Close == /\ pool = "open" /\ pool' = "closing" /\ UNCHANGED <<nw, ph, ret, queue, by>>
Closed(live) == /\ pool = "closing" /\ live = 0
                /\ \A i \in DOMAIN ph : ph[i] \in {"none", "done"}
                /\ pool' = "closed" /\ UNCHANGED <<nw, ph, ret, queue, by>>
\* ---- hidden steps -------------------------------------------------------------
Push(i) == /\ ph[i] = "called" /\ ph' = [ph EXCEPT ![i] = "queued"] /\ queue' = Append(queue, i)
           /\ UNCHANGED <<nw, ret, by, pool>>
Take == /\ queue # <<>> /\ Cardinality(Occupied) < nw
        /\ ph' = [ph EXCEPT ![Head(queue)] = "held"] /\ queue' = Tail(queue)
        /\ UNCHANGED <<nw, ret, by, pool>>
\* ---- consequences (checked on the model) ---------------------------------------
QueueIsWaiting == /\ \A k \in DOMAIN queue : ph[queue[k]] = "queued"
                  /\ \A j, k \in DOMAIN queue : queue[j] = queue[k] => j = k
                  /\ Len(queue) = Cardinality(In("queued"))
NeverTooMany == Cardinality(Occupied) <= nw
ClosedMeansDone == pool = "closed" => \A i \in DOMAIN ph : ph[i] \in {"none", "done"}
=============================================================================
