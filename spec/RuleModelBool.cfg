SPECIFICATION Spec
CONSTANT Vocab = {"n", "t", "=", "is", "not", "1", "and", "or"}
CONSTANT MaxLen = 17
CONSTANT Emit = TRUE
INVARIANTS RoundTrip OwnSpelling ReadsItself Printed
CHECK_DEADLOCK FALSE
