SPECIFICATION Spec
CONSTANT MaxThread = 2
INVARIANT OrderIndependent
PROPERTY FrameProp
CHECK_DEADLOCK FALSE
