SPECIFICATION Spec
VIEW View
CONSTANTS Ns = {0, 1, 7, 12}
H = 4
R = 8
P = 0
Q = 0
Ds <- DsDef
CHECK_DEADLOCK FALSE
