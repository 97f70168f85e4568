CONSTANTS
  Cases <- NoCases
  Pats <- NoOp
  Src <- NoOp
SPECIFICATION EqSpec
VIEW EqView
CHECK_DEADLOCK FALSE
