INIT Init
NEXT Next
CONSTANTS MaxFrames = 2
INVARIANTS Conforms Bounded
