SPECIFICATION Spec
CONSTANT D = 4
VIEW View
INVARIANTS Agrees Finishable
CHECK_DEADLOCK FALSE
