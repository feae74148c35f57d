CONSTANTS MaxCalls = 4
INIT Init
NEXT Next
INVARIANTS Accepted NeverDead RewardKept Alive
