CONSTANTS Mode = "single"
 Envs = 1
 NStep = 2
 Start = 2
 UI = 2
 TI = 3
 Times = 2
 MaxT = 6
 Kind = "dqn"
SPECIFICATION Spec
INVARIANTS StoredIsExperienced Linked UpdatesOnSchedule TargetBehind
PROPERTIES Accepted Tampered
