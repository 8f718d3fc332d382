SPECIFICATION Spec
INVARIANTS Exact Sorted Finds Printed
CHECK_DEADLOCK FALSE
