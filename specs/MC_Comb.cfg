SPECIFICATION Spec
VIEW View
INVARIANTS Obeys NoLostWake TypeOK
CONSTANTS N = 2 NW = 2 KINDS = {"join", "try_join", "race", "race_ok"}
CONSTANT Focus <- AllFocus
CHECK_DEADLOCK FALSE
