CONSTANTS Alphabet = {0, 1, 3, 4}
 MaxUnits = 2
 MaxUnit = 3
 MaxZeros = 3
 MaxTrail = 1
SPECIFICATION Spec
INVARIANTS Recovers Emit
