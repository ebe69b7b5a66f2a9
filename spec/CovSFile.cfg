SPECIFICATION Spec
CONSTANTS NF = 2  NH = 1  MaxOps = 5  Fmts = {"sdt", "h5", "mat"}  Emitting = FALSE
VIEW View
INVARIANTS HistoryDecides Emit
CHECK_DEADLOCK FALSE
