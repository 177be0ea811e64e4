SPECIFICATION Spec
CONSTANTS N = 7 Kinds <- KS
INVARIANTS Exact Clean
