CONSTANTS Mode = "batch"
 Envs = 2
 NStep = 2
 Start = 2
 UI = 2
 TI = 3
 Times = 1
 MaxT = 6
 Kind = "dqn"
SPECIFICATION Spec
INVARIANTS StoredIsExperienced Linked UpdatesOnSchedule TargetBehind
PROPERTIES Accepted Tampered
