SPECIFICATION LitSpec
CONSTANTS N = 5 L = 2 D = 1
INVARIANT Nested
INVARIANT Observe
CHECK_DEADLOCK FALSE
