CONSTANTS D = 5
 Ks = {1, 2}
 Rs = {0}
 Vs = {0, 1}
 W = 0
 Extra = {"pop", "reload"}
INIT Init
NEXT Next
INVARIANT Emit
