SPECIFICATION Spec
CONSTANTS
  Sr = "int"
  MaxArcs = 2
  Bound = 2
INVARIANTS Once
CHECK_DEADLOCK FALSE
