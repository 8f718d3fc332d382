SPECIFICATION Spec
CONSTANT Verdict <- RepsVerdict
CONSTANT Chunks = 64
CHECK_DEADLOCK FALSE
