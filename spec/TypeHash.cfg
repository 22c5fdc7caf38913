SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANT MaxOthers = 3
INVARIANTS RoundTrip Injective Damage
