SPECIFICATION Spec
CONSTANTS Chs = {0, 2}
 MaxPieces = 2
 MaxReports = 0
 MaxLost = 1
 Want = {2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16}
INVARIANTS Emit
