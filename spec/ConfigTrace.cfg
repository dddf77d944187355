SPECIFICATION Spec
CONSTANT MaxThread = 63
CHECK_DEADLOCK FALSE
