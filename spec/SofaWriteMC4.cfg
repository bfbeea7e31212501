SPECIFICATION Spec
CONSTANTS
  Paths = {"p.sofa", "q"}
  Parts = 3
  Depth = 4
INVARIANTS Complete Unchanged Written Tidy Report
PROPERTIES Atomic
