SPECIFICATION Spec
CONSTANTS NP = 3 NV = 3 ME = 2 NT = 2
INVARIANTS Informed OneAnswer OneOwnerSaid NoSecond Refines
