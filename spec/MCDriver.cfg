SPECIFICATION MSpec
CONSTANT Cases <- NoCases
CONSTANT Tab <- MTab
CONSTANT Rules <- MRules
CONSTANT Src <- MSrc
CONSTANT Fault <- NoFault
INVARIANT Exact
INVARIANT Unaffected
INVARIANT Ends
INVARIANT Covered
INVARIANT OneRead
CHECK_DEADLOCK FALSE
