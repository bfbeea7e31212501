SPECIFICATION GSpec
CONSTANTS
  Conv = {"A_1.0.csv", "B_1.0.csv", "AB-C_0.2.csv"}
  Old = "Old_1.0.csv"
  Steps = 4
INVARIANTS Never Emit
CHECK_DEADLOCK FALSE
