CONSTANTS MaxSteps = 3
 Crash = FALSE
SPECIFICATION Spec
INVARIANTS NotStuck StepsExact HooksExact NeverStepsDeadEnv LimitKept OneFinal ResetsExact Checkpoints
