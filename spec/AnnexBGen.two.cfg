CONSTANTS Alphabet = {0, 1, 3}
 MaxUnits = 2
 MaxUnit = 2
 MaxZeros = 4
 MaxTrail = 2
SPECIFICATION Spec
INVARIANTS Recovers Emit
