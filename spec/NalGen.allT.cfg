CONSTANTS MaxPush = 4
 Palette <- All
SPECIFICATION Spec
INVARIANTS WholeSeries Emit
