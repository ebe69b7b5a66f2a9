SPECIFICATION SimSpec
CONSTANTS NF = 3  NH = 2  MaxOps = 24  Fmts = {"sdt", "h5", "mat"}  Emitting = TRUE
INVARIANTS Emit
CHECK_DEADLOCK FALSE
