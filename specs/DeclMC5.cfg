INIT Init
NEXT Next
CONSTANT MaxLen = 5
INVARIANTS OrderFree Local Exact
CHECK_DEADLOCK FALSE
