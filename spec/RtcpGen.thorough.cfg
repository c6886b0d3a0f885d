CONSTANTS Cs = {0, 1, 2, 3, 4, 8, 15, 16, 17, 31}
 PTs = {0, 72, 199, 200, 201, 202, 203, 204, 255}
 Cuts = {0,1,2,3,4,5,8,12,16,20,21,22,23,24,25,26,27,28}
SPECIFICATION Spec
INVARIANTS Complete Emit
