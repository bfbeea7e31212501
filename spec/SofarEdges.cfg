SPECIFICATION ESpec
CONSTANTS
  Depth = 3
  Part = {"edit", "add", "verify", "files", "upgrade", "copy", "query"}
  Final = {"set", "del"}
VIEW View
CHECK_DEADLOCK FALSE
