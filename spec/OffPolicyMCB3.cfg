CONSTANTS Mode = "batch"
 Envs = 3
 NStep = 2
 Start = 3
 UI = 2
 TI = 5
 Times = 2
 MaxT = 6
 Kind = "dqn"
SPECIFICATION Spec
INVARIANTS StoredIsExperienced Linked UpdatesOnSchedule TargetBehind
PROPERTIES Accepted Tampered
