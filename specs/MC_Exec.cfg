SPECIFICATION Spec
VIEW View
INVARIANTS Queued Runs NotNested AskedOnce Free
CONSTANTS NT = 2 NTimers = 2 NActs = 1
CHECK_DEADLOCK FALSE
