SPECIFICATION Spec
CONSTANTS Vals = {1, 2}
 MaxLen = 3
 MaxOps = 5
INVARIANTS Room OnlySetOrResizeBreaksQueue Queries
CHECK_DEADLOCK FALSE
