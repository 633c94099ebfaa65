SPECIFICATION Spec
CONSTANTS
  Sr = "int"
  MaxArcs = 3
  Bound = 2
INVARIANTS InvOverride InvUnion InvConcat InvCompose InvClosure
CHECK_DEADLOCK FALSE
