SPECIFICATION Spec
CONSTANT N = 4
INVARIANT Distinct
INVARIANT Observe
CHECK_DEADLOCK FALSE
