SPECIFICATION Spec
CONSTANTS N = 7
INVARIANTS EachOnce Grows Fails Deferred Always Counts
CHECK_DEADLOCK FALSE
