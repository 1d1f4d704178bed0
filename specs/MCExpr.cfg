SPECIFICATION Spec
VIEW View
CHECK_DEADLOCK FALSE
CONSTANT Deep = FALSE
INVARIANTS LawsHold Kinds NaNs
