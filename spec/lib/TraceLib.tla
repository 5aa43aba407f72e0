------------------------------ MODULE TraceLib ------------------------------
(* Reading a recorded behaviour (one JSON object per line, file named by the *)
(* environment variable TRACE) and the acceptance condition: every line was  *)
(* explained by a step of the specification.                                 *)
EXTENDS Naturals, Sequences, Json, IOUtils, TLC
Log == ndJsonDeserialize(IOEnv.TRACE)
LogLen == Len(Log)
TraceAccepted ==
    LET d == TLCGet("stats").diameter
    IN  IF d - 1 = LogLen THEN TRUE ELSE PrintT("REJECTED_AT " \o ToString(d)) /\ FALSE
Has(r, f) == f \in DOMAIN r
=============================================================================
