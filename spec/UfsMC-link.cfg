CONSTANTS Conns = {1}  FidSet = {1, 2}  Depth = 4  Ops = {"tree"}  Links = TRUE
SPECIFICATION Spec
VIEW View
INVARIANTS WellFormed OpenHave
PROPERTY LinkPromises
CHECK_DEADLOCK FALSE
