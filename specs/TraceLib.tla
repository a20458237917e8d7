------------------------------ MODULE TraceLib ------------------------------
(* Shared by the trace specifications.  The recorded trace is an ndjson file *)
(* named by the environment variable TRACE; a trace specification consumes   *)
(* one event per step, so the depth of the state graph tells how much of the *)
(* trace the specification accepts.                                          *)
EXTENDS TLC, IOUtils, Json, Integers, Sequences
Trace == ndJsonDeserialize(IOEnv.TRACE)
Match(name, i, got, want) ==
  IF got = want THEN TRUE
  ELSE PrintT(<<"MISMATCH", i, name, "got", got, "want", want>>) /\ FALSE
PrintDepth == PrintT(<<"DEPTH", TLCGet("stats").diameter>>)
=============================================================================
