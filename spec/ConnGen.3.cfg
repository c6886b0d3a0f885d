SPECIFICATION Spec
CONSTANTS MaxLen = 4 MaxOps = 3
INVARIANTS Prefix Emit
PROPERTY Blind
CHECK_DEADLOCK FALSE
