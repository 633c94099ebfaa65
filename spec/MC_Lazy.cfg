SPECIFICATION Spec
CONSTANTS
  Threads = {1, 2}
  Asks = 6
INVARIANTS OneNumberPerTuple OneMachine KnownCoversCache
PROPERTY NeverForgets
CHECK_DEADLOCK FALSE
