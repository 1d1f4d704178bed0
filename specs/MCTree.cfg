SPECIFICATION Spec
VIEW View
CHECK_DEADLOCK FALSE
INVARIANTS TreeShape LabelsDiffer ElementalInOrder RunsFit
