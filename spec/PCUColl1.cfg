SPECIFICATION Spec
CONSTANTS N = 1 Kinds <- KAS
INVARIANTS Exact Clean
PROPERTY Ends
