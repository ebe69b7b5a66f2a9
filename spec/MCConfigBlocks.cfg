SPECIFICATION Spec
CONSTANTS NS = 2  MaxOps = 5  MaxNodes = 4  Emitting = FALSE
VIEW View
INVARIANTS NamesUnique TypesDistinct MergeLaws CopyLaws
PROPERTIES Isolation UseMonotone OnlyLookupUses
CHECK_DEADLOCK FALSE
