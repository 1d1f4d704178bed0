SPECIFICATION Spec
VIEW View
CHECK_DEADLOCK FALSE
CONSTANT Deep = TRUE
INVARIANTS ColumnsWin Understood AsWritten PivotsAgree CountsAdd
