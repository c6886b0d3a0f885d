CONSTANTS MaxLines = 5
SPECIFICATION Spec
INVARIANTS OnePerVideo NoLeak OrderFree Emit
