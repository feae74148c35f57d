CONSTANTS MaxSteps = 6
 N = 3
 Crash = FALSE
INIT Init
NEXT Next
INVARIANTS NotStuck EpisodesKept StepsExact HooksExact Finals Checkpoints EpisodesCounted
