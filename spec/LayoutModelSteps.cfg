SPECIFICATION Spec
CONSTANT MaxSteps = 4
CONSTANT Emit = TRUE
INVARIANTS Unchanged Printed
VIEW View
CHECK_DEADLOCK FALSE
