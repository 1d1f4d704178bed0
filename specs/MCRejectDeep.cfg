SPECIFICATION Spec
VIEW View
CHECK_DEADLOCK FALSE
CONSTANT Most = 2
INVARIANTS Consistent NoTrace Never OrderFree GroupFree Undone Words
