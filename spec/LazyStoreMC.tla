----------------------------- MODULE LazyStoreMC -----------------------------
EXTENDS LazyStoreImpl
FilesA == [n \in {"a", "b", "x"} |-> CASE n = "a" -> 2 [] n = "b" -> 3 [] OTHER -> 0]
FilesB == [n \in {"a", "b", "c"} |-> CASE n = "a" -> 2 [] n = "b" -> 3 [] OTHER -> 2]
=============================================================================
