SPECIFICATION Spec
CONSTANTS N = 2 Kinds <- KSA
INVARIANTS Exact Clean
PROPERTY Ends
