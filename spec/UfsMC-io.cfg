CONSTANTS Conns = {1}  FidSet = {1, 2}  Depth = 9  Ops = {"io"}  Links = FALSE
SPECIFICATION Spec
VIEW View
INVARIANTS WellFormed OpenHave
PROPERTY Promises
CHECK_DEADLOCK FALSE
