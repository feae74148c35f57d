CONSTANTS Cap = 3
 MaxX = 5
 Ps = {1, 2, 5}
 KMax = 3
SPECIFICATION Spec
INVARIANTS Refines MaxIsLargestEverSet Positive Bounded LastDistinct
