SPECIFICATION TraceSpec
VIEW TraceView
CHECK_DEADLOCK FALSE
