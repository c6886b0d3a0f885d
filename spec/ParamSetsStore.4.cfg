SPECIFICATION Spec
CONSTANT N = 4
INVARIANTS Emit PaletteOut
PROPERTY Untouched
CHECK_DEADLOCK FALSE
