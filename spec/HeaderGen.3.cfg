SPECIFICATION Spec
CONSTANT N = 3
INVARIANTS OneEach LastWins Emit
CHECK_DEADLOCK FALSE
