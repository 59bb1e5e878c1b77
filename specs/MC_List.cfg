SPECIFICATION Spec
VIEW View
INVARIANTS PageOk MarkersOk
CONSTANTS NK = 2
Shows = 2
Sibs = {"A", "B"}
LastPhase = 2
CHECK_DEADLOCK FALSE
