SPECIFICATION Spec
CONSTANT Versions = {"36", "37", "38.1"}
CONSTANT Kinds = {"c", "C", "o", "b", "n", "e", "x"}
CONSTANT MaxFiles = 3
CONSTANT Emit = TRUE
INVARIANTS Result Permutes Printed
CHECK_DEADLOCK FALSE
