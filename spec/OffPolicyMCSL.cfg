CONSTANTS Mode = "single"
 Envs = 1
 NStep = 3
 Start = 3
 UI = 3
 TI = 2
 Times = 1
 MaxT = 9
 Kind = "dqn"
SPECIFICATION Spec
INVARIANTS StoredIsExperienced Linked UpdatesOnSchedule TargetBehind
PROPERTIES Accepted Tampered
