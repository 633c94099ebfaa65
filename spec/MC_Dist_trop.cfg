SPECIFICATION Spec
CONSTANTS
  Sr = "trop"
  MaxArcs = 3
INVARIANTS Exact Sound
PROPERTY Stops
CHECK_DEADLOCK FALSE
