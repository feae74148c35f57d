CONSTANTS Envs = {1, 2}
 Cap = 3
 MaxT = 7
SPECIFICATION Spec
INVARIANTS ViewsAgree Capacity NewestEpisodes NeverEvictsNeedlessly Increasing InvisibleInProgress
