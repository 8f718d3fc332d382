SPECIFICATION Spec
CONSTANT MaxSteps = 4
CONSTANT Emit = FALSE
INVARIANTS Unchanged OneEach
CHECK_DEADLOCK FALSE
