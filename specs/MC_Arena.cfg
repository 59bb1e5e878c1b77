SPECIFICATION Spec
VIEW View
INVARIANTS ListsDisjoint SlotsPlaced
CONSTANTS NL = 2 NS = 3 NW = 2
CHECK_DEADLOCK FALSE
