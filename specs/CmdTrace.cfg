INIT Init
NEXT Next
POSTCONDITION Verdict
CHECK_DEADLOCK FALSE
