SPECIFICATION Spec
CONSTANT Verdict <- LayoutVerdict
CONSTANT Chunks = 16
CHECK_DEADLOCK FALSE
