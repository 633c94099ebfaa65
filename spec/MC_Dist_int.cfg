SPECIFICATION Spec
CONSTANTS
  Sr = "int"
  MaxArcs = 4
INVARIANTS Exact Sound
PROPERTY Stops
CHECK_DEADLOCK FALSE
