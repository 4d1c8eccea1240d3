---------------------------- MODULE ThreadPoolMC -----------------------------
EXTENDS ThreadPoolImpl
\* one submitter, task 1 waits until 2 has started
F1 == <<-1, -1, -1>>
N1 == <<{2}, {}, {}>>
\* two submitters, task 1 hands in 3
F2 == <<-1, -2, 1>>
N2 == <<{}, {}, {}>>
F3 == <<-1, -2, 1, 2>>
N3 == <<{}, {}, {}, {}>>
F4 == <<-1, -1, -1, -1>>
N4 == <<{2, 3}, {}, {4}, {}>>

F5 == <<-1, -1, -2, 1, 2>>
N5 == <<{}, {3}, {}, {}, {}>>
=============================================================================
