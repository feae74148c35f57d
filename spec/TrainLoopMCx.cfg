CONSTANTS MaxSteps = 2
 Crash = TRUE
SPECIFICATION Spec
INVARIANTS NotStuck StepsExact HooksExact NeverStepsDeadEnv LimitKept OneFinal ResetsExact Checkpoints
