SPECIFICATION Spec
CONSTANT MaxRels = 3
CONSTANT MaxCats = 1
CONSTANT UseCats = {"few"}
CONSTANT Shapes = {"eq", "ne", "eqlist", "nelist", "eqrange", "nerange", "eqmix", "nemix", "in", "notin", "is", "isnot", "within"}
INVARIANTS Reads Boolean Decided Printed
CHECK_DEADLOCK FALSE
