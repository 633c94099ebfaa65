SPECIFICATION Spec
CONSTANTS
  Sr = "real"
  MaxArcs = 2
  Bound = 2
INVARIANTS InvOverride InvUnion InvConcat InvCompose InvClosure
CHECK_DEADLOCK FALSE
