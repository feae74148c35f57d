CONSTANTS Kind = "ppo"
 Mode = "batch"
 Envs = 2
 UI = 4
 BS = 3
 Epochs = 2
 MaxT = 4
SPECIFICATION Spec
INVARIANTS Partition Segments Sizes SizesA2C SizesA3C SizesRF SameMemory Closed4 Lambda1
PROPERTIES Accepted Tampered
