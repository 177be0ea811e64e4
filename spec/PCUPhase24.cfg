SPECIFICATION Spec
CONSTANTS r0 = r0 r1 = r1
CONSTANTS Rs = {r0, r1} P = 4 Self = FALSE
INVARIANTS InPhase Once All Empty
SYMMETRY Symmetric
