SPECIFICATION Spec
CONSTANT N = 3
INVARIANTS Decided Closest Irrelevant Order
CHECK_DEADLOCK FALSE
