INIT Init
NEXT Next
INVARIANT Note
POSTCONDITION Verdicts
CHECK_DEADLOCK FALSE
