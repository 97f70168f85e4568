CONSTANTS
  Cases <- NoCases
  Pats <- NoOp
  Src <- NoOp
SPECIFICATION OvSpec
VIEW OvView
INVARIANT Noted
CHECK_DEADLOCK FALSE
