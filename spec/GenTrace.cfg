SPECIFICATION Spec
CONSTANT Verdict <- GenVerdict
CONSTANT Chunks = 64
CHECK_DEADLOCK FALSE
