SPECIFICATION Spec
CONSTANTS
  Paths = {"p.sofa", "q"}
  Parts = 3
  Depth = 3
INVARIANTS Complete Unchanged Written Tidy Report
PROPERTIES Atomic
