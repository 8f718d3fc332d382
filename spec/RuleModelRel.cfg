SPECIFICATION Spec
CONSTANT Vocab = {"n", "i", "v", "w", "f", "t", "%", "mod", "=", "!=", "in", "not", "within", "is", "0", "12", "..", ","}
CONSTANT MaxLen = 9
CONSTANT Emit = TRUE
INVARIANTS RoundTrip OwnSpelling ReadsItself Printed
CHECK_DEADLOCK FALSE
