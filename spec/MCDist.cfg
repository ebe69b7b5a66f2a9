SPECIFICATION Spec
CONSTANTS MaxRadii = 4
CONSTANTS Vals = {0, 1}
INVARIANTS Sorted SameSet Stored Between TableLaws Emit
CHECK_DEADLOCK FALSE
