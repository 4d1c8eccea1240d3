------------------------------- MODULE TsvLoad -------------------------------
(* What loading a list of TSV blocks means (C07).  A block is                *)
(* [kind |-> "file" / "missing" / "dir", lines |-> sequence of lines], a     *)
(* line is a sequence of fields [t |-> text, num, x] (num: the whole text is *)
(* a number, x) and empty lines are the empty sequence; header names are     *)
(* given trimmed.  A request is [n |-> column, as |-> role].                 *)
EXTENDS Integers, Sequences, FiniteSets
Missing == 2147483647
Markers == {"NAN", "nan", "NaN", "?", "_", "-", "*"}
TypeFor(as) == IF as = "float" THEN "bkt" ELSE IF as \in {"addfloat", "target", "weight"} THEN "raw" ELSE "str"
Wanted(want) == {[n |-> want[i].n, t |-> TypeFor(want[i].as)] : i \in DOMAIN want}
Index(header, n) == {i \in DOMAIN header : header[i] = n}
\* ---- rows ---------------------------------------------------------------------
NonEmpty(q) == SelectSeq(q, LAMBDA ln : ln # <<>>)
RowsOf(blocks, i) == NonEmpty(IF i > 1 THEN blocks[i].lines
                              ELSE IF blocks[1].lines = <<>> THEN <<>> ELSE Tail(blocks[1].lines))
RECURSIVE Cat(_, _)
Cat(blocks, k) == IF k = 0 THEN <<>> ELSE Cat(blocks, k - 1) \o RowsOf(blocks, k)
AllRows(blocks) == Cat(blocks, Len(blocks))
GoodField(t, f) == t = "str" \/ f.num \/ f.t \in Markers
Value(t, f) == IF t = "str" THEN f.t ELSE IF f.num THEN f.x ELSE Missing
\* ---- errors -------------------------------------------------------------------
Errors(blocks, header, want) ==
  (IF blocks = <<>> THEN {"no blocks"} ELSE {})
  \cup {"unreadable block" : i \in {j \in DOMAIN blocks : blocks[j].kind # "file"}}
  \cup {"column absent" : c \in {d \in Wanted(want) : Index(header, d.n) = {}}}
  \cup {"two types" : c \in {d \in Wanted(want) : \E e \in Wanted(want) : e.n = d.n /\ e.t # d.t}}
  \cup (IF blocks = <<>> THEN {}
        ELSE LET all == AllRows(blocks)
             IN {"bad row" : r \in {k \in DOMAIN all : \E c \in Wanted(want) : \E i \in Index(header, c.n) :
                                      i > Len(all[k]) \/ ~GoodField(c.t, all[k][i])}})
Column(blocks, header, c) == LET all == AllRows(blocks)   i == CHOOSE i \in Index(header, c.n) : TRUE
                             IN [k \in DOMAIN all |-> Value(c.t, all[k][i])]
=============================================================================
