SPECIFICATION Spec
CONSTANTS
  Depth = 3
  Part = {"edit", "add", "verify", "files", "upgrade", "copy", "query"}
VIEW View
INVARIANTS Intact Custom Complete Verdicts Fresh Readable Upgradable Comparison
PROPERTY Rejected
CHECK_DEADLOCK FALSE
