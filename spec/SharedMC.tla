----------------------------- MODULE SharedMC -----------------------------
(* Memory model: every process maps addresses to pages; pages of shared    *)
(* arrays are mapped by all processes, others are copied by a fork.  A     *)
(* link holds an address.  The code's operations (rebinding the address to *)
(* a shared array, writing through the address, copying out) refine the    *)
(* alias semantics of Shared.tla.  One scalar per component.               *)
EXTENDS Shared, TLC
CONSTANTS Vals, MaxOps, Kids, Broken
VARIABLES s, addr, heap, page, nx, ops, arrs, forked
vars == <<s, addr, heap, page, nx, ops, arrs, forked>>
\* heap: page -> value;  page: <<proc, address>> -> page
\* address n < 10: private memory of holder n, >= 10: shared arrays
H == {1, 2}
Procs == IF forked THEN {0} \cup Kids ELSE {0}
S0 == [hs |-> [ph \in {0} \X H |-> [par |-> Priv(<<0>>), per |-> Priv(<<0>>), st |-> Priv(<<0>>)]],
       gs |-> <<>>]
Init == /\ s = S0
        /\ addr = [ph \in {0} \X H |-> ph[2]]
        /\ page = [pa \in {0} \X H |-> pa[2]]
        /\ heap = [n \in H |-> 0]
        /\ nx = 3 /\ ops = 0 /\ arrs = <<>> /\ forked = FALSE
Rd(p, h) == heap[page[<<p, addr[<<p, h>>]>>]]
Ev(op, p, h, k, x) == [op |-> op, p |-> p, h |-> h, h2 |-> 3 - h, k |-> k, x |-> x,
                       ps |-> Kids, gr |-> <<x>>, st0 |-> <<0>>]
Extend(f, a, v) == [d \in DOMAIN f \cup {a} |-> IF d = a THEN v ELSE f[d]]
MapAll(f, a, pg, ps) == [d \in DOMAIN f \cup {<<p, a>> : p \in ps} |->
                           IF d \in DOMAIN f THEN f[d] ELSE pg]
Extract(p, h, attach) ==
  LET a == 10 + Len(s.gs) + 1
  IN /\ heap' = Extend(heap, nx, Rd(p, h))
     /\ page' = MapAll(page, a, nx, {p})
     /\ nx' = nx + 1
     /\ arrs' = Append(arrs, <<p, forked>>)
     /\ addr' = IF attach THEN [addr EXCEPT ![<<p, h>>] = a] ELSE addr
     /\ s' = SPost(s, Ev(IF attach THEN "share" ELSE "extract", p, h, 1, 0))
     /\ UNCHANGED forked
\* arrays made before the fork are known to every process
Known(p, k) == <<p, 10 + k>> \in DOMAIN page
Sync(p, h, k) ==
  /\ Known(p, k)
  /\ addr' = [addr EXCEPT ![<<p, h>>] = 10 + k]
  /\ s' = SPost(s, Ev("sync", p, h, k, 0))
  /\ UNCHANGED <<heap, page, nx, arrs, forked>>
Write(p, h, x) ==
  /\ heap' = [heap EXCEPT ![page[<<p, addr[<<p, h>>]>>]] = x]
  /\ s' = SPost(s, Ev("setpar", p, h, 1, x))
  /\ UNCHANGED <<addr, page, nx, arrs, forked>>
NotShared(p, h) ==
  /\ IF Broken THEN UNCHANGED <<heap, page, nx, addr>>
     ELSE LET a == 100 + nx
          IN /\ heap' = Extend(heap, nx, Rd(p, h))
             /\ page' = MapAll(page, a, nx, {p})
             /\ addr' = [addr EXCEPT ![<<p, h>>] = a]
             /\ nx' = nx + 1
  /\ s' = SPost(s, Ev("notshared", p, h, 1, 0))
  /\ UNCHANGED <<arrs, forked>>
\* private pages are copied for every child, shared arrays stay mapped
Fork ==
  /\ ~forked /\ forked' = TRUE
  /\ LET privp == {a \in {pa[2] : pa \in DOMAIN page} : a < 10 \/ a >= 100}
         newpg == [pa \in Kids \X privp |-> nx + (pa[1] * 50) + (pa[2] % 50)]
     IN /\ page' = [d \in DOMAIN page \cup {<<p, pa[2]>> : p \in Kids, pa \in DOMAIN page} |->
                      IF d \in DOMAIN page THEN page[d]
                      ELSE IF d[2] \in privp THEN newpg[d] ELSE page[<<0, d[2]>>]]
        /\ heap' = [n \in DOMAIN heap \cup {newpg[d] : d \in DOMAIN newpg} |->
                      IF n \in DOMAIN heap THEN heap[n]
                      ELSE LET d == CHOOSE d \in DOMAIN newpg : newpg[d] = n
                           IN heap[page[<<0, d[2]>>]]]
        /\ nx' = nx + 500
  /\ addr' = [ph \in ({0} \cup Kids) \X H |-> addr[<<0, ph[2]>>]]
  /\ s' = SPost(s, Ev("fork", 0, 1, 1, 0))
  /\ UNCHANGED arrs
Next == /\ ops < MaxOps /\ ops' = ops + 1
        /\ \/ Fork
           \/ \E p \in Procs, h \in H :
                \/ (Len(arrs) < 2 /\ (Extract(p, h, TRUE) \/ Extract(p, h, FALSE)))
                \/ \E k \in 1..Len(arrs) : Sync(p, h, k)
                \/ \E x \in Vals : Write(p, h, x)
                \/ NotShared(p, h)
Spec == Init /\ [][Next]_vars
Refines == \A ph \in DOMAIN addr : <<Rd(ph[1], ph[2])>> = Get(s, ph[1], ph[2], "par")
\* stated without aliases: holders of one shared array always agree, in all processes
Agree == \A a, b \in DOMAIN addr :
           (addr[a] = addr[b] /\ addr[a] \in 11..99 /\ arrs[addr[a] - 10][2] = FALSE)
             => Rd(a[1], a[2]) = Rd(b[1], b[2])
===========================================================================
