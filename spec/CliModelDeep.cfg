SPECIFICATION Spec
CONSTANT Inputs = {"c", "o", "n", "c2", "missing", "dir", "utf8", "notdata", "badrule"}
CONSTANT Outputs = {"absent", "short", "long", "dir", "noparent", "full", "limit", "none"}
CONSTANT MaxInputs = 3
CONSTANT Emit = TRUE
INVARIANTS EndsRight NeverTouched Printed
PROPERTY Ends
CHECK_DEADLOCK FALSE
