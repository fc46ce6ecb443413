----------------------------- MODULE TraceBase -----------------------------
(* Common part of every trace specification.  The file named by the        *)
(* environment variable TRACE holds one recorded history per line:          *)
(*   {"cfg": {...}, "ev": [ {...}, ... ]}                                   *)
(* A Trace<X> module starts in one initial state per history (variable tr), *)
(* consumes one event per step (variable l) with the actions of <X>, and    *)
(* prints TRACEOK for each history explained to its last event.             *)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES tr, l

Cfg == Traces[tr].cfg
NEv == Len(Traces[tr].ev)
More == l <= NEv
Ev == Traces[tr].ev[l]
Consume == More /\ l' = l + 1 /\ tr' = tr
Silent == More /\ l' = l /\ tr' = tr
TraceStart == tr \in 1..Len(Traces) /\ l = 1

(* CONSTRAINT: always TRUE, reports progress as a side effect *)
Report == IF l > NEv THEN PrintT(<<"TRACEOK", tr>>) ELSE TRUE
=============================================================================
