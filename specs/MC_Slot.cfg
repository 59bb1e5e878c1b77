SPECIFICATION Spec
VIEW View
INVARIANTS NoLostWake Right
CONSTANTS Kinds = {"leaf", "until", "gate", "ready", "self", "drop"}
MaxSets = 3
CHECK_DEADLOCK FALSE
