SPECIFICATION Spec
CONSTANT N = 8
INVARIANTS OnePlace Held NoEmpty
PROPERTIES Awake Fifo
CHECK_DEADLOCK FALSE
