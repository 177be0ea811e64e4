SPECIFICATION Spec
CONSTANTS N = 5 Kinds <- KAS
INVARIANTS Exact Clean
PROPERTY Ends
