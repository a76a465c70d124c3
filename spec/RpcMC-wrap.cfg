SPECIFICATION Spec
CONSTANTS
  Version = "v"
  NCalls = 3
  Kind = "wrap"
INVARIANTS Once Right
PROPERTIES Conform AllReturn
CHECK_DEADLOCK FALSE
