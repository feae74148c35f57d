INIT TInit
NEXT TNext
INVARIANT NoClauseViolated
CHECK_DEADLOCK FALSE
