CONSTANTS
 Buffers <- Bufs
 Ops <- SomeOps
 MaxOps = 3
SPECIFICATION Spec
INVARIANTS InRange Additive Emit
PROPERTY Monotone
