CONSTANTS Envs = {1, 2}
 N = 3
 Cap = 4
 MaxT = 7
SPECIFICATION Spec
INVARIANTS WindowsExact StartsUnique CapacityFifo
