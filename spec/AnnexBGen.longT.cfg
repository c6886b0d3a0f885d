CONSTANTS Alphabet = {0, 1, 2, 3, 101}
 MaxUnits = 1
 MaxUnit = 6
 MaxZeros = 4
 MaxTrail = 2
SPECIFICATION Spec
INVARIANTS Recovers Emit
