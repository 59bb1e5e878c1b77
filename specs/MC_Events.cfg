SPECIFICATION Spec
VIEW View
INVARIANTS Free NoLost Listeners
CONSTANTS NS = 2 NW = 2 NE = 2
CONSTANT Focus <- MCFocus
CHECK_DEADLOCK FALSE
