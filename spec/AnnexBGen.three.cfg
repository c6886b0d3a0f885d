CONSTANTS Alphabet = {0, 3, 103}
 MaxUnits = 3
 MaxUnit = 2
 MaxZeros = 3
 MaxTrail = 0
SPECIFICATION Spec
INVARIANTS Recovers Emit
