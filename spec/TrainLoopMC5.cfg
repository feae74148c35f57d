CONSTANTS MaxSteps = 5
 Crash = FALSE
SPECIFICATION Spec
INVARIANTS NotStuck StepsExact HooksExact NeverStepsDeadEnv LimitKept OneFinal ResetsExact Checkpoints
