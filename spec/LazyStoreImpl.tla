---------------------------- MODULE LazyStoreImpl ----------------------------
(* Lazy loading as it is built: look up under the mutex; if the column is    *)
(* not there read the file without the mutex; insert under the mutex unless  *)
(* another thread was faster or the length differs; look up again.  Refines  *)
(* FlatStore: each request takes effect at one moment.                       *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Threads, Files,   \* name -> number of rows, 0: not readable
          Calls             \* number of requests per thread
Names == DOMAIN Files
Ln(i) == [t |-> "x", x |-> i, num |-> FALSE, hash |-> FALSE]
File(n) == [lines |-> <<[t |-> IF Files[n] = 0 THEN "junk" ELSE "# dtype=strings", x |-> 0, num |-> FALSE, hash |-> TRUE]>>
                      \o [i \in 1..Files[n] |-> Ln(i)], eol |-> TRUE]
Dirs == <<[n \in Names |-> File(n)]>>
VARIABLES map,      \* name -> identity of the column object (0: none)
          pc, want, \* thread -> where it is, which column
          obj,      \* thread -> object it has read from the file
          out,      \* thread -> what it returns (0: nothing)
          fresh,    \* next object identity
          left,     \* thread -> requests left
          handed    \* identities returned to callers, by name
vars == <<map, pc, want, obj, out, fresh, left, handed>>
Rows1 == LET l == {n \in Names : map[n] # 0} IN IF l = {} THEN -1 ELSE Files[CHOOSE n \in l : TRUE]
Init == /\ map = [n \in Names |-> 0] /\ pc = [t \in Threads |-> "idle"] /\ want \in [Threads -> {CHOOSE n \in Names : TRUE}]
        /\ obj = [t \in Threads |-> 0] /\ out = [t \in Threads |-> 0] /\ fresh = 1
        /\ left = [t \in Threads |-> Calls] /\ handed = [n \in Names |-> 0]
Go(t, x) == pc' = [pc EXCEPT ![t] = x]
Call(t) == /\ pc[t] = "idle" /\ left[t] > 0 /\ \E n \in Names : want' = [want EXCEPT ![t] = n]
           /\ left' = [left EXCEPT ![t] = @ - 1] /\ Go(t, "look") /\ UNCHANGED <<map, obj, out, fresh, handed>>
Look(t) == /\ pc[t] = "look" /\ Go(t, IF map[want[t]] # 0 THEN "fetch" ELSE "read")
           /\ UNCHANGED <<map, want, obj, out, fresh, left, handed>>
Read(t) == /\ pc[t] = "read"
           /\ IF Files[want[t]] = 0 THEN /\ out' = [out EXCEPT ![t] = 0] /\ Go(t, "refuse")
                                         /\ UNCHANGED <<obj, fresh>>
              ELSE /\ obj' = [obj EXCEPT ![t] = fresh] /\ fresh' = fresh + 1 /\ Go(t, "insert") /\ UNCHANGED out
           /\ UNCHANGED <<map, want, left, handed>>
Insert(t) == /\ pc[t] = "insert" /\ obj' = [obj EXCEPT ![t] = 0]
             /\ IF map[want[t]] # 0 THEN Go(t, "fetch") /\ UNCHANGED <<map, out>>
                ELSE IF Rows1 # -1 /\ Rows1 # Files[want[t]]
                     THEN Go(t, "refused") /\ out' = [out EXCEPT ![t] = 0] /\ UNCHANGED map
                ELSE map' = [map EXCEPT ![want[t]] = obj[t]] /\ Go(t, "fetch") /\ UNCHANGED out
             /\ UNCHANGED <<want, fresh, left, handed>>
Fetch(t) == /\ pc[t] = "fetch" /\ out' = [out EXCEPT ![t] = map[want[t]]] /\ Go(t, "return")
            /\ UNCHANGED <<map, want, obj, fresh, left, handed>>
Return(t) == /\ pc[t] \in {"return", "refuse", "refused"} /\ Go(t, "idle")
             /\ handed' = IF out[t] # 0 THEN [handed EXCEPT ![want[t]] = out[t]] ELSE handed
             /\ UNCHANGED <<map, want, obj, out, fresh, left>>
Step(t) == Call(t) \/ Look(t) \/ Read(t) \/ Insert(t) \/ Fetch(t) \/ Return(t)
Next == \E t \in Threads : Step(t)
Spec == Init /\ [][Next]_vars /\ \A t \in Threads : WF_vars(Step(t))
\* ---- the mapping: the request takes effect where the table is decided ---------------
\* a thread that found the column present, inserted it, or was refused has taken effect
areq == [t \in Threads |->
           CASE pc[t] = "idle" -> [n |-> "", want |-> "any", st |-> "idle", res |-> FALSE]
             [] pc[t] \in {"look", "read", "insert"} -> [n |-> want[t], want |-> "any", st |-> "called", res |-> FALSE]
             [] pc[t] \in {"fetch", "return"} -> [n |-> want[t], want |-> "any", st |-> "lin", res |-> TRUE]
             [] OTHER -> [n |-> want[t], want |-> "any", st |-> "lin", res |-> FALSE]]
alabel == [n \in {m \in Names : map[m] # 0} |-> handed[n]]
F == INSTANCE FlatStore WITH dirs <- Dirs, nrows <- Rows1, label <- alabel, req <- areq
FNext == \E t \in Threads : \/ \E n \in Names : F!Call(t, n, "any")
                            \/ F!Lin(t) \/ F!Ret(t, FALSE, 0) \/ \E id \in 1..fresh : F!Ret(t, TRUE, id)
Refines == /\ F!Consistent
           /\ [][FNext]_<<Dirs, Rows1, alabel, areq>>
Invs == F!Consistent
Stable == [][\A n \in Names : map[n] # 0 => map'[n] = map[n]]_vars
AllAnswered == <>(\A t \in Threads : left[t] = 0 /\ pc[t] = "idle")
=============================================================================
