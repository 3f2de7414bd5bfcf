INIT Init
NEXT Nx
POSTCONDITION Verdict
CHECK_DEADLOCK FALSE
