SPECIFICATION Spec
CONSTANT NC = 2
VIEW View
INVARIANTS Sane
CHECK_DEADLOCK FALSE
