SPECIFICATION Spec
CONSTANT N = 4
INVARIANTS Total Composes Emit
PROPERTY Stable
