--------------------------- MODULE ThreadPoolImpl ----------------------------
(* The pool as it is built: a queue under a mutex, one condition variable    *)
(* (which may wake up spuriously), notify_one after each submission outside  *)
(* the mutex, a stop flag and notify_all at the end.  Refines                *)
(* ThreadPoolClient, including its liveness: no lost wake-up, no deadlock.   *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS NWorkers, From, Needs, Await, Spurious
Tasks == DOMAIN From
Workers == 1..NWorkers
VARIABLES lock,      \* 0 free, w > 0 worker, -i caller of task i, -100 destructor
          q, stop,
          wpc,       \* worker -> "lock", "check", "wait", "held", "run", "exit"
          wtask,     \* worker -> task held (0: none)
          cpc,       \* task -> "none", "lock", "push", "notify", "ret", "back"
          st,        \* task -> "none", "running", "done" (as seen by its client)
          dpc        \* "open", "lock", "set", "notify", "join", "closed"
vars == <<lock, q, stop, wpc, wtask, cpc, st, dpc>>
Init == /\ lock = 0 /\ q = <<>> /\ stop = FALSE /\ wpc = [w \in Workers |-> "lock"]
        /\ wtask = [w \in Workers |-> 0] /\ cpc = [i \in Tasks |-> "none"]
        /\ st = [i \in Tasks |-> "none"] /\ dpc = "open"
\* ---- Invoke ---------------------------------------------------------------------
WLock(w) == wpc[w] = "lock" /\ lock = 0 /\ lock' = w /\ wpc' = [wpc EXCEPT ![w] = "check"]
            /\ UNCHANGED <<q, stop, wtask, cpc, st, dpc>>
WCheck(w) == /\ wpc[w] = "check" /\ lock' = 0
             /\ IF q # <<>>
                THEN /\ wtask' = [wtask EXCEPT ![w] = Head(q)] /\ q' = Tail(q)
                     /\ wpc' = [wpc EXCEPT ![w] = "held"]
                ELSE /\ wpc' = [wpc EXCEPT ![w] = IF stop THEN "exit" ELSE "wait"]
                     /\ UNCHANGED <<wtask, q>>
             /\ UNCHANGED <<stop, cpc, st, dpc>>
WSpurious(w) == Spurious /\ wpc[w] = "wait" /\ wpc' = [wpc EXCEPT ![w] = "lock"]
                /\ UNCHANGED <<lock, q, stop, wtask, cpc, st, dpc>>
WRun(w) == /\ wpc[w] = "held" /\ wpc' = [wpc EXCEPT ![w] = "run"]
           /\ st' = [st EXCEPT ![wtask[w]] = "running"]
           /\ UNCHANGED <<lock, q, stop, wtask, cpc, dpc>>
MayEnd(i) == /\ \A j \in Needs[i] : st[j] # "none"
             /\ \A j \in Tasks : From[j] = i => cpc[j] = "back"
WEnd(w) == /\ wpc[w] = "run" /\ MayEnd(wtask[w]) /\ wpc' = [wpc EXCEPT ![w] = "lock"]
           /\ st' = [st EXCEPT ![wtask[w]] = "done"] /\ wtask' = [wtask EXCEPT ![w] = 0]
           /\ UNCHANGED <<lock, q, stop, cpc, dpc>>
\* ---- Enqueue --------------------------------------------------------------------
MayCall(i) == /\ \A j \in Tasks : From[j] = From[i] /\ j < i => cpc[j] = "back"
              /\ IF From[i] < 0 THEN dpc = "open" ELSE st[From[i]] = "running"
ECall(i) == cpc[i] = "none" /\ MayCall(i) /\ cpc' = [cpc EXCEPT ![i] = "lock"]
            /\ UNCHANGED <<lock, q, stop, wpc, wtask, st, dpc>>
ELock(i) == cpc[i] = "lock" /\ lock = 0 /\ lock' = -i /\ cpc' = [cpc EXCEPT ![i] = "push"]
            /\ UNCHANGED <<q, stop, wpc, wtask, st, dpc>>
EPush(i) == cpc[i] = "push" /\ lock' = 0 /\ q' = Append(q, i) /\ cpc' = [cpc EXCEPT ![i] = "notify"]
            /\ UNCHANGED <<stop, wpc, wtask, st, dpc>>
Waiting == {w \in Workers : wpc[w] = "wait"}
ENotify(i) == /\ cpc[i] = "notify" /\ cpc' = [cpc EXCEPT ![i] = "ret"]
              /\ IF Waiting = {} THEN UNCHANGED wpc
                 ELSE \E w \in Waiting : wpc' = [wpc EXCEPT ![w] = "lock"]
              /\ UNCHANGED <<lock, q, stop, wtask, st, dpc>>
ERet(i) == cpc[i] = "ret" /\ cpc' = [cpc EXCEPT ![i] = "back"]
           /\ UNCHANGED <<lock, q, stop, wpc, wtask, st, dpc>>
\* ---- ShutDown --------------------------------------------------------------------
DClose == /\ dpc = "open" /\ \A i \in Tasks : From[i] < 0 => cpc[i] = "back"
          /\ Await => \A i \in Tasks : st[i] = "done"
          /\ dpc' = "lock" /\ UNCHANGED <<lock, q, stop, wpc, wtask, cpc, st>>
DLock == dpc = "lock" /\ lock = 0 /\ lock' = -100 /\ dpc' = "set" /\ UNCHANGED <<q, stop, wpc, wtask, cpc, st>>
DSet == dpc = "set" /\ lock' = 0 /\ stop' = TRUE /\ dpc' = "notify" /\ UNCHANGED <<q, wpc, wtask, cpc, st>>
DNotify == /\ dpc = "notify" /\ dpc' = "join"
           /\ wpc' = [w \in Workers |-> IF wpc[w] = "wait" THEN "lock" ELSE wpc[w]]
           /\ UNCHANGED <<lock, q, stop, wtask, cpc, st>>
DJoin == dpc = "join" /\ (\A w \in Workers : wpc[w] = "exit") /\ dpc' = "closed"
         /\ UNCHANGED <<lock, q, stop, wpc, wtask, cpc, st>>
WStep(w) == WCheck(w) \/ WRun(w) \/ WEnd(w)
EStep(i) == ECall(i) \/ EPush(i) \/ ENotify(i) \/ ERet(i)
DStep == DClose \/ DSet \/ DNotify \/ DJoin
Next == \/ \E w \in Workers : WLock(w) \/ WStep(w) \/ WSpurious(w)
        \/ \E i \in Tasks : ELock(i) \/ EStep(i)
        \/ DLock \/ DStep
Spec == /\ Init /\ [][Next]_vars
        /\ \A w \in Workers : WF_vars(WStep(w)) /\ SF_vars(WLock(w))
        /\ \A i \in Tasks : WF_vars(EStep(i)) /\ SF_vars(ELock(i))
        /\ WF_vars(DStep) /\ SF_vars(DLock)
\* ---- the mapping -------------------------------------------------------------------
Holder(i) == {w \in Workers : wtask[w] = i}
aph == [i \in Tasks |-> IF st[i] # "none" THEN st[i] ELSE IF Holder(i) # {} THEN "held"
                        ELSE IF cpc[i] \in {"none"} THEN "none"
                        ELSE IF cpc[i] \in {"lock", "push"} THEN "called" ELSE "queued"]
\* who ran a task that has ended is history; the specification's `by` is only observable while it runs
aby == [i \in Tasks |-> IF st[i] = "running" THEN CHOOSE w \in Workers : wtask[w] = i ELSE 0]
apool == IF dpc = "open" THEN "open" ELSE IF dpc = "closed" THEN "closed" ELSE "closing"
aret == {i \in Tasks : cpc[i] = "back"}
A == INSTANCE ThreadPoolClient WITH nw <- NWorkers, ph <- aph, ret <- aret, queue <- q, by <- aby, pool <- apool
\* steps of the abstract specification, `by` of ended tasks forgotten
ANext == \/ \E i \in Tasks : A!CCall(i) \/ A!Push(i) \/ A!Ret(i) \/ A!CRun(i)
         \/ \E i \in Tasks : A!MayEnd(i) /\ aph[i] = "running" /\ aph' = [aph EXCEPT ![i] = "done"]
                             /\ aby' = [aby EXCEPT ![i] = 0] /\ UNCHANGED <<aret, q, apool>>
         \/ A!Take \/ A!CClose \/ A!Closed(0)
avars == <<aph, aret, q, aby, apool>>
Refines == A!CInit /\ [][ANext]_avars
Invs == A!QueueIsWaiting /\ A!NeverTooMany /\ A!ClosedMeansDone
Finishes == <>(dpc = "closed" /\ \A i \in Tasks : st[i] = "done")
=============================================================================
