CONSTANTS CCs = {0, 1, 2, 15}
 XLs = {0, 1, 3}
 PLs = {0, 1, 5}
 Pads = {0, 1, 4}
SPECIFICATION Spec
INVARIANTS RoundTrip Prefixes OtherVersion Emit
