SPECIFICATION Spec
CONSTANT Verdict <- SameVerdict
CONSTANT Chunks = 16
CHECK_DEADLOCK FALSE
