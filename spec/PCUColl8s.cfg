SPECIFICATION Spec
CONSTANTS N = 8 Kinds <- KS
INVARIANTS Exact Clean
