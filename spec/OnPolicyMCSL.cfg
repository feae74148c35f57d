CONSTANTS Kind = "ppo"
 Mode = "single"
 Envs = 1
 UI = 5
 BS = 3
 Epochs = 2
 MaxT = 12
SPECIFICATION Spec
INVARIANTS Partition Segments Sizes SizesA2C SizesA3C SizesRF SameMemory Closed4 Lambda1
PROPERTIES Accepted Tampered
