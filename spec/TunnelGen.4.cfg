SPECIFICATION Spec
CONSTANT N = 4
INVARIANTS Total OkIsWhole Emit
PROPERTY Stable
