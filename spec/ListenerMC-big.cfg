SPECIFICATION Spec
CONSTANTS
  Lns = {1, 2}
  MaxConn = 2
  MaxTemp = 1
  MaxShut = 2
INVARIANTS Lawful Reason Closes
PROPERTIES Finishes Ends ShutEnds Survives Conns
CHECK_DEADLOCK FALSE
