SPECIFICATION Spec
CONSTANTS MaxLen = 7  EmitAll = TRUE
INVARIANTS LayoutIrrelevant Truncated Compositional Spliced WellFormedTree Balanced Emit
PROPERTY SettingPersists
CHECK_DEADLOCK FALSE
