SPECIFICATION Spec
CONSTANTS s1 = s1 s2 = s2 s3 = s3 e1 = e1
CONSTANTS S = {s1, s2, s3} Edges = {e1} Items = 2 MaxW = 2
INVARIANTS Kept Useful SubPlan
SYMMETRY Symmetric
