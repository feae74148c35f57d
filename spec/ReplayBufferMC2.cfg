CONSTANTS Envs = {1, 2}
 N = 3
 Cap = 2
 MaxT = 8
SPECIFICATION Spec
INVARIANTS WindowsExact StartsUnique CapacityFifo
