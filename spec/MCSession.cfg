SPECIFICATION Spec
CONSTANTS MaxCalls = 2 MaxChanges = 1
INVARIANTS Sound Complete OnlyRestrict
PROPERTIES Exhausted Independent Frozen Ends
CHECK_DEADLOCK FALSE
