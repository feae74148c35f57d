CONSTANTS Kind = "reinforce"
 Mode = "single"
 Envs = 1
 UI = 2
 BS = 1
 Epochs = 1
 MaxT = 7
SPECIFICATION Spec
INVARIANTS Partition Segments Sizes SizesA2C SizesA3C SizesRF SameMemory Closed4 Lambda1
PROPERTIES Accepted Tampered
