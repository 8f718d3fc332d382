SPECIFICATION Spec
CONSTANT Vocab = {"n", "=", "7", "@integer", "@decimal", "3.5", "0.05", "~", ",", "..."}
CONSTANT MaxLen = 11
CONSTANT Emit = TRUE
INVARIANTS RoundTrip OwnSpelling ReadsItself Printed
CHECK_DEADLOCK FALSE
