SPECIFICATION Spec
CONSTANTS Threads = {1, 2}
 Files <- FilesA
 Calls = 2
INVARIANT Invs
PROPERTIES Refines Stable AllAnswered
CHECK_DEADLOCK FALSE
