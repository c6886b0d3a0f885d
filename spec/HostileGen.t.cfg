SPECIFICATION Spec
CONSTANTS
 Max = 2
 Small = FALSE
INVARIANT Bounded
INVARIANT Octets
PROPERTY Ended
