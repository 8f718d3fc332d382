SPECIFICATION Spec
CONSTANT MaxRels = 3
CONSTANT MaxCats = 1
CONSTANT UseCats = {"few"}
CONSTANT Shapes = {"eq", "nelist", "nerange", "eqmix", "notin", "isnot", "within"}
INVARIANTS Reads Boolean Decided Printed
CHECK_DEADLOCK FALSE
