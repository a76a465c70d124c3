SPECIFICATION TraceSpec
CONSTANT MaxTag = 65534
VIEW TraceView
CHECK_DEADLOCK FALSE
