INIT Init
NEXT Next
CONSTANTS
 N = 3
 Calls = 3
INVARIANTS Answered OneAtATime NoneLeft
