CONSTANTS
 Buffers <- Bufs
 Ops <- SomeOps
 MaxOps = 4
SPECIFICATION Spec
INVARIANTS InRange Additive Emit
PROPERTY Monotone
