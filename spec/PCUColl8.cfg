SPECIFICATION Spec
CONSTANTS N = 8 Kinds <- KA
INVARIANTS Exact Clean
PROPERTY Ends
