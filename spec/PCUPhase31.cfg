SPECIFICATION Spec
CONSTANTS r0 = r0 r1 = r1 r2 = r2
CONSTANTS Rs = {r0, r1, r2} P = 1 Self = TRUE
INVARIANTS InPhase Once All Empty
SYMMETRY Symmetric
