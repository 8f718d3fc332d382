SPECIFICATION Spec
CONSTANT Verdict <- SelVerdict
CONSTANT Chunks = 64
CHECK_DEADLOCK FALSE
