----------------------------- MODULE EvalLoopMC ------------------------------
EXTENDS EvalLoop
LowPoint == -1
=============================================================================
