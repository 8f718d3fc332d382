SPECIFICATION Spec
CONSTANT Verdict <- CombineVerdict
CONSTANT Chunks = 16
CHECK_DEADLOCK FALSE
