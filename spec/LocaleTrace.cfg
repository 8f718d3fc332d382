SPECIFICATION Spec
CONSTANT Verdict <- LocVerdict
CONSTANT Chunks = 64
CHECK_DEADLOCK FALSE
