SPECIFICATION Spec
CONSTANT Verdict <- ParseVerdict
CONSTANT Chunks = 64
CHECK_DEADLOCK FALSE
