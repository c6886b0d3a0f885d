CONSTANTS MaxPush = 4
 Palette <- FragsAll
SPECIFICATION Spec
INVARIANTS WholeSeries Emit
