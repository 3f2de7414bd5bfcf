SPECIFICATION Spec
CONSTANT N = 5
INVARIANTS TypeOk NeverStuck
PROPERTY Steps
CHECK_DEADLOCK FALSE
