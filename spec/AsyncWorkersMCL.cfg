CONSTANTS Workers = {1, 2, 3}
 TMax = 2
 ITarget = 2
 MaxT = 5
 Bug = "none"
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Once Short OneEpisode OneModel Own Scheduled
