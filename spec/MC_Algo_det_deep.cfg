SPECIFICATION Spec
CONSTANTS
  Sr = "trop"
  MaxArcs = 3
  Bound = 3
  OnlyAcceptors = TRUE
INVARIANTS InvRmEps InvPush InvPushed InvDet
CHECK_DEADLOCK FALSE
