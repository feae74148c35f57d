CONSTANTS MaxSteps = 4
 N = 2
 Crash = FALSE
INIT Init
NEXT Next
INVARIANTS NotStuck EpisodesKept StepsExact HooksExact Finals Checkpoints EpisodesCounted
