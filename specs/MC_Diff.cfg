SPECIFICATION Spec
VIEW View
INVARIANTS Shown
CONSTANTS NK = 4
CHECK_DEADLOCK FALSE
