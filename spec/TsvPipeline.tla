----------------------------- MODULE TsvPipeline -----------------------------
(* How blocks are loaded: workers read blocks in any order, the loader takes *)
(* the results strictly in list order and lets workers append each block to  *)
(* every column before it takes the next; the first block with an error ends *)
(* the loading.  For every interleaving the columns are the concatenation,   *)
(* or the load fails.                                                        *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS NBlocks, NCols, NWorkers, BadBlocks
Blocks == 1..NBlocks
Cols == 1..NCols
VARIABLES rd,      \* block -> "no", "reading", "ready"
          next,    \* block the loader waits for
          todo,    \* columns that have yet to get block `next`
          busy,    \* columns being appended to
          cols,    \* column -> sequence of blocks appended
          st       \* "load", "append", "ok", "error"
vars == <<rd, next, todo, busy, cols, st>>
Init == /\ rd = [b \in Blocks |-> "no"] /\ next = 1 /\ todo = {} /\ busy = {}
        /\ cols = [c \in Cols |-> <<>>] /\ st = "load"
Reading == {b \in Blocks : rd[b] = "reading"}
Begin(b) == /\ rd[b] = "no" /\ \A a \in 1..(b - 1) : rd[a] # "no" /\ Cardinality(Reading) < NWorkers
            /\ rd' = [rd EXCEPT ![b] = "reading"] /\ UNCHANGED <<next, todo, busy, cols, st>>
Finish(b) == rd[b] = "reading" /\ rd' = [rd EXCEPT ![b] = "ready"] /\ UNCHANGED <<next, todo, busy, cols, st>>
TakeBlock == /\ st = "load" /\ next <= NBlocks /\ rd[next] = "ready"
             /\ IF next \in BadBlocks THEN st' = "error" /\ UNCHANGED <<todo, next>>
                ELSE st' = "append" /\ todo' = Cols /\ UNCHANGED next
             /\ UNCHANGED <<rd, busy, cols>>
BeginAppend(c) == /\ st = "append" /\ c \in todo /\ Cardinality(busy) < NWorkers
                  /\ busy' = busy \cup {c} /\ todo' = todo \ {c} /\ UNCHANGED <<rd, next, cols, st>>
EndAppend(c) == /\ c \in busy /\ busy' = busy \ {c} /\ cols' = [cols EXCEPT ![c] = Append(@, next)]
                /\ UNCHANGED <<rd, next, todo, st>>
Joined == /\ st = "append" /\ todo = {} /\ busy = {} /\ next' = next + 1
          /\ st' = (IF next = NBlocks THEN "ok" ELSE "load") /\ UNCHANGED <<rd, todo, busy, cols>>
Next == \/ \E b \in Blocks : Begin(b) \/ Finish(b)
        \/ TakeBlock \/ Joined \/ \E c \in Cols : BeginAppend(c) \/ EndAppend(c)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
All == [i \in Blocks |-> i]
OkMeansAll == st = "ok" => BadBlocks = {} /\ \A c \in Cols : cols[c] = All
ErrorMeansBad == st = "error" => BadBlocks # {}
Prefixes == \A c \in Cols : cols[c] = SubSeq(All, 1, Len(cols[c]))
Ends == <>(st \in {"ok", "error"})
=============================================================================
