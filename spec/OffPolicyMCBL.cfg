CONSTANTS Mode = "batch"
 Envs = 2
 NStep = 3
 Start = 3
 UI = 2
 TI = 3
 Times = 2
 MaxT = 8
 Kind = "dqn"
SPECIFICATION Spec
INVARIANTS StoredIsExperienced Linked UpdatesOnSchedule TargetBehind
PROPERTIES Accepted Tampered
