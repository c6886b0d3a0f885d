CONSTANTS MaxPush = 5
 Palette <- FragsAnd
SPECIFICATION Spec
INVARIANTS WholeSeries Emit
