SPECIFICATION Spec
CONSTANTS NF = 3  NH = 3
CHECK_DEADLOCK FALSE
