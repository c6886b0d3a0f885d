SPECIFICATION Spec
CONSTANT N = 1
INVARIANTS Sound Tells Emit
CHECK_DEADLOCK FALSE
