----------------------------- MODULE TraceBase -----------------------------
(* Reading a recorded trace and reporting lines the specification rejects. *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
Reject(n, info) == PrintT("REJECT@" \o ToString(n) \o "@" \o ToString(info))
=============================================================================
