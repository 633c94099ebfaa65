SPECIFICATION Spec
CONSTANT N = 7
INVARIANTS HeadIsLeast EmptyExact FlagsExact
PROPERTY Delivers
CHECK_DEADLOCK FALSE
