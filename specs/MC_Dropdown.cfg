SPECIFICATION Spec
VIEW View
INVARIANTS Allowed Same
CONSTANTS NK = 3
CHECK_DEADLOCK FALSE
