SPECIFICATION Spec
INVARIANTS Counted Emit
PROPERTIES Local
CHECK_DEADLOCK FALSE
