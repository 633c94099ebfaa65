SPECIFICATION Spec
CONSTANTS
  Sr = "trop"
  MaxArcs = 4
INVARIANTS Exact Sound
PROPERTY Stops
CHECK_DEADLOCK FALSE
