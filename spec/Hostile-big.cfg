SPECIFICATION Spec
CONSTANTS
  Good = {"g1"}
  Bad = {"b1", "b2"}
  MaxMsgs = 2
  OneThread = FALSE
INVARIANTS Up Undisturbed
PROPERTIES Served Accepted
CHECK_DEADLOCK FALSE
