SPECIFICATION Spec
CONSTANT N = 3
INVARIANTS Emit PaletteOut
PROPERTY Untouched
CHECK_DEADLOCK FALSE
