------------------------------ MODULE TreesMC -------------------------------
EXTENDS Trees
SmallG == {-1, 2}
Par0 == <<0, 0, 0>>
Par1 == <<2, 3, 1>>
=============================================================================
