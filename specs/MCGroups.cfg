SPECIFICATION Spec
VIEW View
CHECK_DEADLOCK FALSE
INVARIANTS PrevalAddsUp PrevalOrder GroupsAddUp OrderOfExpressions UnitsEmpty
