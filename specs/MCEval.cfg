SPECIFICATION Spec
VIEW View
CHECK_DEADLOCK FALSE
CONSTANT Deep = FALSE
INVARIANTS ColumnsWin Understood AsWritten PivotsAgree CountsAdd
