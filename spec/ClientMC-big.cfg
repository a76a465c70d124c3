SPECIFICATION Spec
CONSTANTS MaxTag = 3 NCalls = 4 Faults = TRUE
INVARIANTS C09 C08 C11 C10 Kept
CHECK_DEADLOCK FALSE
