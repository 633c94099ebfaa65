SPECIFICATION Spec
CONSTANTS
  Sr = "bool"
  MaxArcs = 2
  Bound = 2
INVARIANTS InvOverride InvUnion InvConcat InvCompose InvClosure
CHECK_DEADLOCK FALSE
