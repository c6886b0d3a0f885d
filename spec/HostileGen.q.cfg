SPECIFICATION Spec
CONSTANTS
 Max = 2
 Small = TRUE
INVARIANT Bounded
INVARIANT Octets
PROPERTY Ended
