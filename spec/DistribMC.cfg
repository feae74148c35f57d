CONSTANTS H = 1
 Full = FALSE
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS AddUp Entropies Modes Divergence MellowMean Slope EntSlope Peak
