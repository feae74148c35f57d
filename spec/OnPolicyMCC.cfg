CONSTANTS Kind = "a3c"
 Mode = "single"
 Envs = 1
 UI = 3
 BS = 1
 Epochs = 1
 MaxT = 8
SPECIFICATION Spec
INVARIANTS Partition Segments Sizes SizesA2C SizesA3C SizesRF SameMemory Closed4 Lambda1
PROPERTIES Accepted Tampered
