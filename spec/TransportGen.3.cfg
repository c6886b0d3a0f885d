CONSTANTS MaxParams = 3
SPECIFICATION Spec
INVARIANTS RoundTrip OwnField Emit
