SPECIFICATION WSpec
CONSTANTS
  Length = 40
  Bias <- NoBias
INVARIANT Emit
CHECK_DEADLOCK FALSE
