SPECIFICATION Spec
CONSTANTS NP = 3 HY = FALSE Depth = 3 Ops = {"mig", "setw", "setew", "coords", "rm", "add", "setorig", "resetown", "save", "load", "getpart"}
INVARIANTS TypeOK OneShare EdgesPlaced GhostsRight CountsAdd MapTotal CutRight
PROPERTY Kept
VIEW View
CHECK_DEADLOCK FALSE
