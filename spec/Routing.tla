------------------------------ MODULE Routing -------------------------------
(* Which child of a split a row goes to.  A node is a record                 *)
(*  [l, r, s, k, f, th, mr, cats, gain]: children (0: none), score, kind of  *)
(* split ("flt", "cat", "none"), feature, threshold, missing-to-right,       *)
(* categories.  A column is [t, v]: floats are order preserving integers     *)
(* with NaN = 2147483647, strings are strings.                               *)
EXTENDS Integers, Sequences, FiniteSets, TLC
NaN == 2147483647
InSeq(x, q) == \E i \in DOMAIN q : q[i] = x
GoesLeft(node, v) ==
  IF node.k = "flt" THEN IF v = NaN THEN ~node.mr ELSE v < node.th
  ELSE IF node.k = "cat" THEN InSeq(v, node.cats)
  ELSE FALSE
LeftOf(node, col, S) == {i \in S : GoesLeft(node, col.v[i])}
IsLeaf(node) == node.l = 0
\* the leaf a row reaches in a tree, given as a sequence of nodes
RECURSIVE LeafFrom(_, _, _, _)
LeafFrom(tree, n, data, i) ==
  IF IsLeaf(tree[n]) THEN n
  ELSE IF GoesLeft(tree[n], data[tree[n].f].v[i]) THEN LeafFrom(tree, tree[n].l, data, i)
       ELSE LeafFrom(tree, tree[n].r, data, i)
LeafOf(tree, data, i) == LeafFrom(tree, 1, data, i)
\* rows at each node: a set of <<node, rows>>
RECURSIVE RowsFrom(_, _, _, _)
RowsFrom(tree, n, data, S) ==
  {<<n, S>>} \cup
  IF IsLeaf(tree[n]) THEN {}
  ELSE LET L == LeftOf(tree[n], data[tree[n].f], S)
       IN RowsFrom(tree, tree[n].l, data, L) \cup RowsFrom(tree, tree[n].r, data, S \ L)
RowsOfNodes(tree, data, S) ==
  LET P == RowsFrom(tree, 1, data, S) IN [n \in {p[1] : p \in P} |-> (CHOOSE p \in P : p[1] = n)[2]]
=============================================================================
