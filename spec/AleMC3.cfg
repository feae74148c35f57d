INIT Init
NEXT Next
CONSTANTS MaxFrames = 3
INVARIANTS Conforms Bounded
