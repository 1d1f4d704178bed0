SPECIFICATION Spec
VIEW View
CHECK_DEADLOCK FALSE
CONSTANTS Length = 5 Largest = 3
INVARIANTS OneChosen Shares InOrder
