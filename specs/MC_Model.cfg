SPECIFICATION Spec
VIEW View
CONSTANTS NK = 3
Lags = 2
CHECK_DEADLOCK FALSE
