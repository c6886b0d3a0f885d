CONSTANTS SpsSet <- SpsQuick
 PpsSet = {}
 Zs = {0, 1}
SPECIFICATION Spec
INVARIANTS RoundTrip CutShort Emit
