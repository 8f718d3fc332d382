SPECIFICATION Spec
CONSTANT Verdict <- CallVerdict
CONSTANT Chunks = 32
CHECK_DEADLOCK FALSE
