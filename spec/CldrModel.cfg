SPECIFICATION Spec
INVARIANTS AllParsed SamplesAgree Exclusive SignatureSound
CHECK_DEADLOCK FALSE
