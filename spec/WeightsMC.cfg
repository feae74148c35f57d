CONSTANTS B0s = {0, 4, 6, 10, 16}
 Steps = {0, 1, 2, 3, 5, 8, 13}
 T = 20
SPECIFICATION Spec
INVARIANTS Closed AtMostOne ReachesOne Constant
