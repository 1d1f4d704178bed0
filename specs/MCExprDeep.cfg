SPECIFICATION Spec
VIEW View
CHECK_DEADLOCK FALSE
CONSTANT Deep = TRUE
INVARIANTS LawsHold Kinds NaNs
