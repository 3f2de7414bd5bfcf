SPECIFICATION Spec
CONSTANTS N = 5 K = 4 Equal = FALSE
INVARIANT Represents
CHECK_DEADLOCK FALSE
