SPECIFICATION Spec
CONSTANT Alphabet = {"-", "+", ".", "0", "1", "5", "e", " "}
CONSTANT MaxLen = 4
INVARIANTS PlainIsGrammar OperandLaws SignFree ExpShift
PROPERTY NoneIsFinal
CHECK_DEADLOCK FALSE
