SPECIFICATION Spec
CONSTANT MaxTag = 64
CHECK_DEADLOCK FALSE
