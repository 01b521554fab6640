----------------------------- MODULE MBusTrace ------------------------------
(***************************************************************************)
(* Trace validation: every line recorded from the real library must be a   *)
(* behaviour of the specification.  Calls are independent (C25), so each   *)
(* line is its own initial state and TLC's workers judge them in parallel. *)
(***************************************************************************)
EXTENDS MBusConform, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
Prop == IOEnv.PROP

VARIABLES line, phase
vars == <<line, phase>>

Init == line \in 1..Len(Trace) /\ phase = "observed"

Explain(l) == IF l.op \in {"prefix", "hist", "errpkt"} THEN "" ELSE ToJson(Expected(l.op, l.a, l.in))
Next == IF phase = "observed"
        THEN /\ UNCHANGED line
             /\ IF Verdict(Trace[line], Prop) THEN phase' = "allowed"
                ELSE /\ phase' = "diverged"
                     /\ PrintT("DIVERGED " \o ToString(line) \o " " \o Explain(Trace[line]))
        ELSE FALSE
Spec == Init /\ [][Next]_vars
=============================================================================
