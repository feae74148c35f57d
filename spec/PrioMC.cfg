CONSTANTS Cap = 3
 MaxX = 4
 Ps = {1, 2, 5}
 KMax = 2
SPECIFICATION Spec
INVARIANTS Refines MaxIsLargestEverSet Positive Bounded LastDistinct
