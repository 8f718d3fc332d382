SPECIFICATION Spec
CONSTANT Verdict <- RefuseVerdict
CONSTANT Chunks = 64
CHECK_DEADLOCK FALSE
