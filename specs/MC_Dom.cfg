SPECIFICATION Spec
VIEW View
INVARIANTS Right
CONSTANTS Which = {1, 2, 3, 4, 5, 6, 7, 8, 9, 10}
CHECK_DEADLOCK FALSE
