CONSTANTS Cs = {0, 1, 2, 31}
 PTs = {0, 72, 199, 200, 201, 202, 203, 204, 255}
 Cuts = {0, 1, 4, 23, 24, 25, 27, 28}
SPECIFICATION Spec
INVARIANTS Complete Emit
