SPECIFICATION Spec
CONSTANTS
  H <- Sym
  MaxCalls = 3
  Big = TRUE
INVARIANTS Honest OnlyThat Emit
