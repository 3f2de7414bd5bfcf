SPECIFICATION Fair
CONSTANT N = 4
INVARIANTS Read1 InOrder Stops Same Cut Split LastHolds
PROPERTY Ends
CHECK_DEADLOCK FALSE
