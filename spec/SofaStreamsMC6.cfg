SPECIFICATION Spec
CONSTANTS
  Ids = {"a", "b"}
  Paths = {"p.sofa", "q.sofa"}
  Depth = 6
INVARIANTS OwnFile Released Report
PROPERTIES Independent
