SPECIFICATION Spec
CONSTANTS Threads = {1, 2, 3}
 Files <- FilesB
 Calls = 1
INVARIANT Invs
PROPERTIES Refines Stable AllAnswered
CHECK_DEADLOCK FALSE
