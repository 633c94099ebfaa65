SPECIFICATION Spec
CONSTANTS
  Sr = "trop"
  MaxArcs = 1
  Bound = 2
INVARIANTS InvOverride InvUnion InvConcat InvCompose InvClosure
CHECK_DEADLOCK FALSE
