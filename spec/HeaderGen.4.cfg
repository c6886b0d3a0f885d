SPECIFICATION Spec
CONSTANT N = 4
INVARIANTS OneEach LastWins Emit
CHECK_DEADLOCK FALSE
