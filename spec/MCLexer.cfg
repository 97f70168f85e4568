CONSTANTS
  MaxPats = 2
  MaxLen = 4
  MaxOut = 6
  Cases <- MCCases
  Pats <- MCPats
  Src <- MCSrc
SPECIFICATION MCSpec
INVARIANTS TypeOK Longest Member Earliest Tiling EndsRight OnDemand
CHECK_DEADLOCK FALSE
