CONSTANTS MaxSteps = 3
 N = 2
 Crash = TRUE
INIT Init
NEXT Next
INVARIANTS NotStuck EpisodesKept StepsExact HooksExact Finals Checkpoints EpisodesCounted
