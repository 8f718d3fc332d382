SPECIFICATION Spec
CONSTANT Verdict <- OpVerdict
CONSTANT Chunks = 64
CHECK_DEADLOCK FALSE
