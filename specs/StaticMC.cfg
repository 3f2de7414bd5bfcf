SPECIFICATION Spec
CONSTANT N = 2
INVARIANTS Decided Closest Irrelevant Order
CHECK_DEADLOCK FALSE
