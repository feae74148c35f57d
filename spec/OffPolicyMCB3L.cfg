CONSTANTS Mode = "batch"
 Envs = 3
 NStep = 2
 Start = 4
 UI = 3
 TI = 4
 Times = 1
 MaxT = 6
 Kind = "ddpg"
SPECIFICATION Spec
INVARIANTS StoredIsExperienced Linked UpdatesOnSchedule TargetBehind
PROPERTIES Accepted Tampered
