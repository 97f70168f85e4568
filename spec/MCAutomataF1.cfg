CONSTANTS Isolated = FALSE Depth = 2 Two = TRUE
SPECIFICATION Spec
INVARIANTS Agree Deterministic Warned
CHECK_DEADLOCK FALSE
