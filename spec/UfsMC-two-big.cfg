CONSTANTS Conns = {1, 2}  FidSet = {1}  Depth = 14  Ops = {"version", "io", "hangup"}  Links = FALSE
SPECIFICATION Spec
VIEW View
INVARIANTS WellFormed OpenHave Held
PROPERTY Promises
CHECK_DEADLOCK FALSE
