SPECIFICATION Spec
CONSTANTS N = 3 Line = FALSE Total = 9 Steps = 3 Piece = 2
INVARIANTS Conserved NeverNegative OneWay Accounts Bounded Reached
PROPERTIES Calmer
