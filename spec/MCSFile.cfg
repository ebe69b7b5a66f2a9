SPECIFICATION Spec
CONSTANTS NF = 1  NH = 2  MaxOps = 5  Fmts = {"sdt", "h5", "mat"}  Emitting = FALSE
VIEW View
INVARIANTS HistoryDecides NoReplacement GroupsFirst HandleShowsItsFile
PROPERTIES ReadsArePure Isolation UpdateKeeps CloseTwice
CHECK_DEADLOCK FALSE
