SPECIFICATION Spec
INVARIANTS InRange Idempotent Monotonic Saturates
