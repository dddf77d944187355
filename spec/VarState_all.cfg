SPECIFICATION Spec
CONSTANTS N = 3 L = 1 D = 2
INVARIANT Nested
INVARIANT Observe
CHECK_DEADLOCK FALSE
