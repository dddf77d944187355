SPECIFICATION Spec
CONSTANT N = 4
INVARIANT Canonical
INVARIANT Observe
CHECK_DEADLOCK FALSE
