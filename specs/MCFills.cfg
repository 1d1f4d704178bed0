SPECIFICATION Spec
VIEW View
CHECK_DEADLOCK FALSE
CONSTANTS Kinds = {"i"} Nested = 2
INVARIANTS Priority MatchesUntouched OpenClose Apart Outermost ResetsAll
