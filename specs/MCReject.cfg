SPECIFICATION Spec
VIEW View
CHECK_DEADLOCK FALSE
CONSTANT Most = 1
INVARIANTS Consistent NoTrace Never OrderFree GroupFree Undone Words
