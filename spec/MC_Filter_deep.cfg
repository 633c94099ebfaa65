SPECIFICATION Spec
CONSTANTS
  Sr = "int"
  MaxArcs = 3
  Bound = 2
INVARIANTS Once
CHECK_DEADLOCK FALSE
