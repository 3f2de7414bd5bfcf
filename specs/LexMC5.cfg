SPECIFICATION Spec
CONSTANT N = 5
INVARIANTS Short InText Ordered Skipped Told Quiet Longest Nested Apart SameAs Decoded
CHECK_DEADLOCK FALSE
