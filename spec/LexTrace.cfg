CONSTANTS
  Cases <- TCases
  Pats <- TPats
  Src <- TSrc
SPECIFICATION TSpec
CHECK_DEADLOCK TRUE
