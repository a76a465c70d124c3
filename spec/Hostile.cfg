SPECIFICATION Spec
CONSTANTS
  Good = {"g1", "g2"}
  Bad = {"b1"}
  MaxMsgs = 2
  OneThread = FALSE
INVARIANTS Up Undisturbed
PROPERTIES Served Accepted
CHECK_DEADLOCK FALSE
