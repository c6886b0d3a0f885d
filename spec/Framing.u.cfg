SPECIFICATION Spec
CONSTANTS
  MaxItems = 3
  MaxCuts = 2
INVARIANTS Complete Emit
