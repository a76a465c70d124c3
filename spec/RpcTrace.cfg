SPECIFICATION TraceSpec
CONSTANT Version = 100
VIEW TraceView
CHECK_DEADLOCK FALSE
