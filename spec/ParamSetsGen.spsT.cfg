CONSTANTS SpsSet <- SpsThorough
 PpsSet = {}
 Zs = {0, 1, 3}
SPECIFICATION Spec
INVARIANTS RoundTrip CutShort Emit
