SPECIFICATION Spec
CONSTANT N = 4
INVARIANTS TypeOk NeverStuck
PROPERTY Steps
CHECK_DEADLOCK FALSE
