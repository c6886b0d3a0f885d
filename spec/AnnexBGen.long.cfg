CONSTANTS Alphabet = {0, 1, 3, 101}
 MaxUnits = 1
 MaxUnit = 5
 MaxZeros = 5
 MaxTrail = 3
SPECIFICATION Spec
INVARIANTS Recovers Emit
