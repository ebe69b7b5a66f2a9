SPECIFICATION Spec
CONSTANTS MaxLen = 6
          EmitAll = TRUE
INVARIANTS Agrees PerLine Shifted OneLine InFile Emit
CHECK_DEADLOCK FALSE
