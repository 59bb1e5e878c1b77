SPECIFICATION Spec
VIEW View
INVARIANTS NoLostWake
CONSTANTS NI = 2 NW = 2 NV = 1
CHECK_DEADLOCK FALSE
