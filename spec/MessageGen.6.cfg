SPECIFICATION Spec
CONSTANT N = 6
INVARIANTS Total Composes Emit
PROPERTY Stable
