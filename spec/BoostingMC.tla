----------------------------- MODULE BoostingMC ------------------------------
EXTENDS Boosting
MCScores == {-1, 2}
MCConsts == {-3, 0, 5}
MCBase == {<<>>, <<<<4, 4>>>>, <<<<1, -2>>, <<7, 7>>>>, <<<<3, 3>>, <<2, 0>>, <<0, 6>>>>}
=============================================================================
