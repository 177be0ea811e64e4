SPECIFICATION Spec
CONSTANTS r0 = r0 r1 = r1
CONSTANTS Rs = {r0, r1} P = 2 Self = TRUE
INVARIANTS InPhase Once All Empty
PROPERTY Ends
