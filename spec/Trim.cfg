SPECIFICATION Spec
CONSTANTS s1 = s1 s2 = s2 e1 = e1 e2 = e2
CONSTANTS S = {s1, s2} Edges = {e1, e2} Items = 2 MaxW = 2
INVARIANTS Kept Useful SubPlan
SYMMETRY Symmetric
