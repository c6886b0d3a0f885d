SPECIFICATION Spec
CONSTANT N = 6
INVARIANTS Total OkIsWhole Emit
PROPERTY Stable
