SPECIFICATION Spec
CONSTANTS NS = 2  MaxOps = 2
VIEW View
INVARIANTS WellTyped Emit
PROPERTIES Isolation
CHECK_DEADLOCK FALSE
