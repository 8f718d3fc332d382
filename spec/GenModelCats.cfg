SPECIFICATION Spec
CONSTANT MaxRels = 5
CONSTANT MaxCats = 5
CONSTANT UseCats = {"zero", "one", "two", "few", "many"}
CONSTANT Shapes = {"eq"}
INVARIANTS Reads Boolean Decided Printed
CHECK_DEADLOCK FALSE
