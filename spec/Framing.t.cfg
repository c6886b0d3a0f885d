SPECIFICATION Spec
CONSTANTS
  MaxItems = 2
  MaxCuts = 3
INVARIANTS Complete Emit
