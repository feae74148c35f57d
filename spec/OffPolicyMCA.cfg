CONSTANTS Mode = "batch"
 Envs = 2
 NStep = 1
 Start = 2
 UI = 2
 TI = 1
 Times = 1
 MaxT = 6
 Kind = "sac"
SPECIFICATION Spec
INVARIANTS StoredIsExperienced Linked UpdatesOnSchedule TargetBehind
PROPERTIES Accepted Tampered
