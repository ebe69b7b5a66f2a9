SPECIFICATION SimSpec
CONSTANTS NS = 3  MaxOps = 20  MaxNodes = 9  Emitting = TRUE
INVARIANTS Emit
CHECK_DEADLOCK FALSE
