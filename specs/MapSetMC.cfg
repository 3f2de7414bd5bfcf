SPECIFICATION Spec
CONSTANTS Keys = {1, 2, 3}
 Vals = {1, 2}
 MaxOps = 6
INVARIANTS LastWriteWins Sizes
CHECK_DEADLOCK FALSE
