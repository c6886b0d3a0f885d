SPECIFICATION Spec
CONSTANT N = 5
INVARIANTS Total Composes Emit
PROPERTY Stable
