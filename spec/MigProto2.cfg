SPECIFICATION Spec
CONSTANTS NP = 2 NV = 3 ME = 2 NT = 2
INVARIANTS Informed OneAnswer OneOwnerSaid NoSecond Refines
