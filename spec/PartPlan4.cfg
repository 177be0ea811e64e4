SPECIFICATION Spec
CONSTANTS N = 4 Line = TRUE Total = 7 Steps = 2 Piece = 2
INVARIANTS Conserved NeverNegative OneWay Accounts Bounded Reached
PROPERTIES Calmer
