CONSTANTS K = 5
 MaxLen = 9
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Right Possible Bracket
