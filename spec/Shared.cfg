SPECIFICATION Spec
INVARIANT Inv
PROPERTY Ends
CHECK_DEADLOCK FALSE
