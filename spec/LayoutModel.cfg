SPECIFICATION Spec
CONSTANT MaxSteps = 3
CONSTANT Emit = FALSE
INVARIANTS Unchanged OneEach
CHECK_DEADLOCK FALSE
