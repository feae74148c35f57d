CONSTANTS Kind = "ppo"
 Mode = "batch"
 Envs = 2
 UI = 3
 BS = 2
 Epochs = 1
 MaxT = 3
SPECIFICATION Spec
INVARIANTS Partition Segments Sizes SizesA2C SizesA3C SizesRF SameMemory Closed4 Lambda1
PROPERTIES Accepted Tampered
