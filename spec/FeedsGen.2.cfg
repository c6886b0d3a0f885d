SPECIFICATION Spec
CONSTANTS MaxSec = 2 MaxAns = 2
INVARIANTS SetMeansAccepted OwnSets Disjoint Decodes Emit
PROPERTY Own
CHECK_DEADLOCK FALSE
