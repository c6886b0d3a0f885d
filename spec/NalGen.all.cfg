CONSTANTS MaxPush = 3
 Palette <- All
SPECIFICATION Spec
INVARIANTS WholeSeries Emit
