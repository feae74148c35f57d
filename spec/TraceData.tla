---------------------------- MODULE TraceData ----------------------------
(* The recorded traces to validate (a constant, evaluated once by TLC).    *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
TraceLog == JsonDeserialize(IOEnv.TRACES)
==========================================================================
