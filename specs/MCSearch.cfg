CONSTANTS K = 4
 MaxLen = 6
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Right Possible Bracket
PROPERTY Ends
