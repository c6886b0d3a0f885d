SPECIFICATION Spec
CONSTANT N = 2
INVARIANTS Sound Tells Emit
CHECK_DEADLOCK FALSE
