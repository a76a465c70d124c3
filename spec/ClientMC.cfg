SPECIFICATION Spec
CONSTANTS MaxTag = 2 NCalls = 3 Faults = TRUE
INVARIANTS C09 C08 C11 C10 Kept
PROPERTY AllReturn LetsGo
CHECK_DEADLOCK FALSE
