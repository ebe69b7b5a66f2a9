SPECIFICATION Spec
CONSTANTS NS = 2  MaxOps = 4  MaxNodes = 4  Emitting = FALSE
VIEW View
INVARIANTS EmitEach
CHECK_DEADLOCK FALSE
