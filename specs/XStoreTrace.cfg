SPECIFICATION TSpec
CONSTANT Focus = {}
CHECK_DEADLOCK FALSE
