SPECIFICATION Spec
CONSTANTS N = 6 Kinds <- KSA
INVARIANTS Exact Clean
PROPERTY Ends
