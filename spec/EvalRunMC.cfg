CONSTANTS MaxN = 3
INIT Init
NEXT Next
CONSTRAINT Short
INVARIANTS NotStuck Exact Episodes Records Scores
