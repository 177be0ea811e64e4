SPECIFICATION Spec
CONSTANTS N = 9 Kinds <- KA
INVARIANTS Exact Clean
