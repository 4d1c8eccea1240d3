------------------------------ MODULE SplitsMC ------------------------------
EXTENDS Splits
P(l, h, g) == [lam4 |-> l, minh4 |-> h, ming4 |-> g]
Gs == {-2, -1, 1}
Params == {P(0, 0, 0), P(4, 0, 0), P(0, 4, 0), P(2, 6, 1), P(1, 0, 3)}
=============================================================================
