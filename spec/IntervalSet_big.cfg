SPECIFICATION Spec
CONSTANT N = 5
INVARIANT Canonical
INVARIANT Observe
CHECK_DEADLOCK FALSE
