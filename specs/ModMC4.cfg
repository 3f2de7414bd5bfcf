CONSTANT N = 4
INIT Init
NEXT Next
INVARIANTS Circles Whole After Once Spoilt
CHECK_DEADLOCK FALSE
