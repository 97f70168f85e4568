CONSTANTS Depth = 2 WordLen = 4
SPECIFICATION Spec
INVARIANTS Agree Dead
CHECK_DEADLOCK FALSE
