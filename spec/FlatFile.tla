------------------------------ MODULE FlatFile -------------------------------
(* What a flat file means.  A file is a sequence of lines joined by line     *)
(* ends, and a flag telling whether the last line has one, too.  A line is   *)
(* [t |-> text, x |-> its number (missing: Missing), num, hash]: x counts    *)
(* only where num says that the whole text is a number; hash: the line       *)
(* starts with '#'.                                                          *)
EXTENDS Integers, Sequences, FiniteSets
Missing == 2147483647
TypeOf(text) == CASE text = "# dtype=strings" -> "str"
                  [] text = "# dtype=raw_floats" -> "raw"
                  [] text = "# dtype=bucketized_floats" -> "bkt"
                  [] OTHER -> "none"
\* what follows the last line end is a line only if it is not empty
Lines(f) == IF f.lines = <<>> THEN <<>>
            ELSE IF ~f.eol /\ f.lines[Len(f.lines)].t = "" THEN SubSeq(f.lines, 1, Len(f.lines) - 1)
            ELSE f.lines
Type(f) == IF Lines(f) = <<>> THEN "none" ELSE TypeOf(Lines(f)[1].t)
Data(f) == SelectSeq(Lines(f), LAMBDA ln : ~ln.hash)
Rows(f) == LET d == Data(f)
           IN IF Type(f) = "str" THEN [i \in DOMAIN d |-> d[i].t]
              ELSE [i \in DOMAIN d |-> IF d[i].num THEN d[i].x ELSE Missing]
Size(f) == Len(Data(f))
\* the first directory that has the file decides
NoFile == [lines |-> <<>>, eol |-> TRUE]
Has(dirs, n) == {d \in DOMAIN dirs : n \in DOMAIN dirs[d]}
Resolve(dirs, n) == IF Has(dirs, n) = {} THEN NoFile
                    ELSE LET d == CHOOSE d \in Has(dirs, n) : \A e \in Has(dirs, n) : d <= e IN dirs[d][n]
Readable(f) == Type(f) # "none"
=============================================================================
