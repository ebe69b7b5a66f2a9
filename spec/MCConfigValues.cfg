SPECIFICATION Spec
CONSTANTS MaxLen = 4
INVARIANTS Laws Emit
CHECK_DEADLOCK FALSE
