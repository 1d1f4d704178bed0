SPECIFICATION Spec
VIEW View
CHECK_DEADLOCK FALSE
CONSTANTS Size = 3 Ordered = FALSE
INVARIANTS AtMostOne LookupRight CountsAll Ordering Opposite Decided
