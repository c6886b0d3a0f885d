CONSTANTS MaxParams = 2
SPECIFICATION Spec
INVARIANTS RoundTrip OwnField Emit
