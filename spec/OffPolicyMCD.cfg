CONSTANTS Mode = "single"
 Envs = 1
 NStep = 3
 Start = 1
 UI = 1
 TI = 2
 Times = 1
 MaxT = 6
 Kind = "ddpg"
SPECIFICATION Spec
INVARIANTS StoredIsExperienced Linked UpdatesOnSchedule TargetBehind
PROPERTIES Accepted Tampered
