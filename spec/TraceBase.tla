---------------------------- MODULE TraceBase ----------------------------
(* Generic trace validation.  A trace file is a JSON array of records      *)
(*   [cfg |-> ..., ev |-> << event, ... >>].                               *)
(* The importing module supplies                                           *)
(*   S0(cfg)            abstract state before the first event              *)
(*   Fails(cfg, s, e)   set of names of clauses event e violates in s      *)
(*   Post(cfg, s, e)    abstract state after the event                     *)
(* Every trace is consumed deterministically to its end unless a clause    *)
(* fails, so (number of distinct states) = sum of (length + 1); the        *)
(* harness checks that count, which makes acceptance total.                *)
EXTENDS Integers, Sequences
CONSTANTS TraceLog, S0(_), Fails(_, _, _), Post(_, _, _)
VARIABLES tid, i, st, bad

Traces == TraceLog

TInit == /\ tid \in 1..Len(Traces)
         /\ i = 0
         /\ st = S0(Traces[tid].cfg)
         /\ bad = {}
TNext == /\ bad = {}
         /\ i < Len(Traces[tid].ev)
         /\ LET c == Traces[tid].cfg
                e == Traces[tid].ev[i + 1]
                f == Fails(c, st, e)
            IN /\ bad' = f
               /\ i' = i + 1
               /\ st' = IF f = {} THEN Post(c, st, e) ELSE st
         /\ tid' = tid
NoClauseViolated == bad = {}
==========================================================================
