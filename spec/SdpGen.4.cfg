CONSTANTS MaxLines = 4
SPECIFICATION Spec
INVARIANTS OnePerVideo NoLeak OrderFree Emit
