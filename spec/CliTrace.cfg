SPECIFICATION Spec
CONSTANT Verdict <- CliVerdict
CONSTANT Chunks = 16
CHECK_DEADLOCK FALSE
