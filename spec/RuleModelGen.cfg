SPECIFICATION Spec
CONSTANT Vocab = {"n", "i", "v", "w", "f", "t", "%", "=", "!=", "in", "not", "within", "is", "7", "..", ","}
CONSTANT MaxLen = 11
CONSTANT Emit = TRUE
INVARIANTS RoundTrip OwnSpelling ReadsItself Printed
CHECK_DEADLOCK FALSE
