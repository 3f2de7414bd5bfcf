SPECIFICATION Spec
CONSTANTS N = 6 K = 5 Equal = FALSE
INVARIANT Represents
CHECK_DEADLOCK FALSE
