SPECIFICATION Spec
CONSTANTS
  Conv = {"A_1.0.csv", "B_1.0.csv"}
  Old = "Old_1.0.csv"
  Steps = 2
INVARIANTS Mirror Nothing Untouched Never UpToDate Minimal
CHECK_DEADLOCK FALSE
