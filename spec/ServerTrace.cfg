SPECIFICATION TraceSpec
CONSTANTS
  Streams <- NoStreams
  Answer <- NoAnswer
VIEW TraceView
CHECK_DEADLOCK FALSE
