CONSTANTS Envs = {1, 2}
 N = 2
 Cap = 3
 MaxT = 6
SPECIFICATION Spec
INVARIANTS WindowsExact StartsUnique CapacityFifo
