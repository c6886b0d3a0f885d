CONSTANTS CCs = {0, 1, 2, 3, 4, 7, 8, 15}
 XLs = {0, 1, 2, 3, 8}
 PLs = {0, 1, 2, 5, 17}
 Pads = {0, 1, 2, 4, 9}
SPECIFICATION Spec
INVARIANTS RoundTrip Prefixes OtherVersion Emit
