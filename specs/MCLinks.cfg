SPECIFICATION Spec
VIEW View
CHECK_DEADLOCK FALSE
CONSTANTS Size = 2 Ordered = FALSE
INVARIANTS AtMostOne LookupRight CountsAll Ordering Opposite Decided
