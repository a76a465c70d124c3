SPECIFICATION MCSpec
CONSTANTS
  MaxMsgs = 2
  Streams <- MCStreams
  Answer <- MCAnswer
INVARIANTS OneReplyEach CallsRight GateHolds RefusedIsError AllAnswered
CHECK_DEADLOCK FALSE
