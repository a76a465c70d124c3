SPECIFICATION Spec
CONSTANTS
  Version = "v"
  NCalls = 3
  Kind = "wire"
INVARIANTS Once Right
PROPERTIES Conform AllReturn
CHECK_DEADLOCK FALSE
