INIT Init
NEXT Next
CONSTANTS
 N = 2
 Calls = 3
INVARIANTS Answered OneAtATime NoneLeft
