SPECIFICATION Spec
VIEW View
INVARIANTS NoLostWake OneBody HitLaw PutLaws
CONSTANTS NI = 2 NW = 2 MCKinds = {"until", "bub"}
CHECK_DEADLOCK FALSE
