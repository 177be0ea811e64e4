SPECIFICATION Spec
CONSTANTS N = 3 Line = TRUE Total = 8 Steps = 2 Piece = 2
INVARIANTS Conserved NeverNegative OneWay Accounts Bounded Reached
PROPERTIES Calmer
