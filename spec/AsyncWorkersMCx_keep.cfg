CONSTANTS Workers = {1, 2}
 TMax = 2
 ITarget = 2
 MaxT = 4
 Bug = "keep"
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Once Short OneEpisode OneModel Own Scheduled
