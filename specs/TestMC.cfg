SPECIFICATION Spec
CONSTANTS N = 5
INVARIANTS EachOnce Grows Fails Deferred Always Counts
CHECK_DEADLOCK FALSE
