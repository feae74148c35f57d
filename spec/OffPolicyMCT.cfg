CONSTANTS Mode = "single"
 Envs = 1
 NStep = 1
 Start = 2
 UI = 1
 TI = 1
 Times = 2
 MaxT = 6
 Kind = "td3"
SPECIFICATION Spec
INVARIANTS StoredIsExperienced Linked UpdatesOnSchedule TargetBehind
PROPERTIES Accepted Tampered
