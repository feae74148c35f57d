INIT Init
NEXT Next
CONSTANTS
 N = 3
 Calls = 4
INVARIANTS Answered OneAtATime NoneLeft
