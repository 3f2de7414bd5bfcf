CONSTANT N = 3
INIT Init
NEXT Next
INVARIANTS Circles Whole After Once Spoilt
CHECK_DEADLOCK FALSE
