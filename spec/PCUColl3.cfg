SPECIFICATION Spec
CONSTANTS N = 3 Kinds <- KAS
INVARIANTS Exact Clean
PROPERTY Ends
