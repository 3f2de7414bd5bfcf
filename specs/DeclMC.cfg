INIT Init
NEXT Next
CONSTANT MaxLen = 4
INVARIANTS OrderFree Local Exact
CHECK_DEADLOCK FALSE
