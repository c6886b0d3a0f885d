SPECIFICATION Spec
CONSTANTS
  H <- Sym
  MaxCalls = 2
  Big = FALSE
INVARIANTS Honest OnlyThat Emit
