CONSTANTS Kind = "a2c"
 Mode = "batch"
 Envs = 3
 UI = 2
 BS = 1
 Epochs = 1
 MaxT = 3
SPECIFICATION Spec
INVARIANTS Partition Segments Sizes SizesA2C SizesA3C SizesRF SameMemory Closed4 Lambda1
PROPERTIES Accepted Tampered
