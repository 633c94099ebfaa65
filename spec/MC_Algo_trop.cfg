SPECIFICATION Spec
CONSTANTS
  Sr = "trop"
  MaxArcs = 2
  Bound = 2
  OnlyAcceptors = FALSE
INVARIANTS InvRmEps InvPush InvPushed InvDet
CHECK_DEADLOCK FALSE
