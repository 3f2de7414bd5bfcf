SPECIFICATION Spec
CONSTANT N = 6
INVARIANTS OnePlace Held NoEmpty
PROPERTIES Awake Fifo
CHECK_DEADLOCK FALSE
