CONSTANTS M = 6
 K = 4
SPECIFICATION Spec
INVARIANTS NoRepeat Complete
