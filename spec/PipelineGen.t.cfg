SPECIFICATION Spec
CONSTANTS Chs = {0, 2}
 MaxPieces = 3
 MaxReports = 1
 MaxLost = 0
 Want = {2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16}
INVARIANTS EndToEnd Numbered Emit
