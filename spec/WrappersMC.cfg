CONSTANTS MaxCalls = 3
INIT Init
NEXT Next
INVARIANTS Accepted NeverDead RewardKept Alive
