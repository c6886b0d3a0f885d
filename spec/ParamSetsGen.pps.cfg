CONSTANTS SpsSet = {}
 PpsSet <- PpsAll
 Zs = {0, 1}
SPECIFICATION Spec
INVARIANTS RoundTrip CutShort Emit
