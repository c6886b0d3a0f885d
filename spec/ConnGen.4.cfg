SPECIFICATION Spec
CONSTANTS MaxLen = 5 MaxOps = 4
INVARIANTS Prefix Emit
PROPERTY Blind
CHECK_DEADLOCK FALSE
