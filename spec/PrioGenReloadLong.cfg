CONSTANTS D = 60
 Ks = {1, 2, 3, 5, 8, 99}
 Rs = {0, 1, 2, 4}
 Vs = {0, 1, 2, 3, 4}
 W = 3
 Extra = {"pop", "reload"}
INIT Init
NEXT Next
INVARIANT Emit
