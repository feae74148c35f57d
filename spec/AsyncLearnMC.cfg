CONSTANT Full = FALSE
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS Returns OnPolicyReplay Flat0 Moves Trust Correction Consistent TD0
