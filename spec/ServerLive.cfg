SPECIFICATION MCSpec
CONSTANTS
  MaxMsgs = 1
  Streams <- MCStreams
  Answer <- MCAnswer
PROPERTIES Settles
CHECK_DEADLOCK FALSE
