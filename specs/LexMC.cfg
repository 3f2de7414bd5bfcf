SPECIFICATION Spec
CONSTANT N = 4
INVARIANTS Short InText Ordered Skipped Told Quiet Longest Nested Apart SameAs Decoded
PROPERTY Ends
CHECK_DEADLOCK FALSE
