SPECIFICATION Spec
CONSTANTS
  Threads = {1, 2, 3}
  Asks = 4
INVARIANTS OneNumberPerTuple OneMachine KnownCoversCache
PROPERTY NeverForgets
CHECK_DEADLOCK FALSE
