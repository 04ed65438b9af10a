------------------------------ MODULE SqlExecMC ------------------------------
EXTENDS SqlExec
MCVals == {NULL, INT(1), INT(2)}
==============================================================================
