SPECIFICATION Spec
CONSTANTS Threads = {1, 2, 3}
 Files <- FilesA
 Calls = 2
INVARIANT Invs
PROPERTIES Refines Stable
CHECK_DEADLOCK FALSE
