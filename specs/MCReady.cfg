SPECIFICATION Spec
VIEW View
CHECK_DEADLOCK FALSE
INVARIANTS RunsWhenComplete ValidateAgrees RunsChangeNothing NamesConsistent GroupsAndWhole
