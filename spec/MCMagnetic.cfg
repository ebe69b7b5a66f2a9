SPECIFICATION Spec
CONSTANT Depth = 4
INVARIANTS Coverage Kept Layout Turn Rim Div Emitted
CHECK_DEADLOCK FALSE
