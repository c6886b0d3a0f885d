SPECIFICATION Spec
CONSTANTS
  MaxItems = 2
  MaxCuts = 2
INVARIANTS Complete Emit
