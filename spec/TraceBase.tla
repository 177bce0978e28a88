----------------------------- MODULE TraceBase -----------------------------
(* Common part of the trace specifications: a batch of recorded executions   *)
(* (one JSON object per line of the file named by the environment variable   *)
(* TRACE) is validated in one TLC run.  tr selects the execution, l is the   *)
(* next event of it.  An execution is accepted iff some behaviour of the     *)
(* specification consumes all of its events.                                 *)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils

VARIABLES tr, l

Traces == ndJsonDeserialize(IOEnv.TRACE)
NTraces == Len(Traces)
Ev == Traces[tr].ev
Cfg == Traces[tr].cfg

TraceBaseInit == tr \in 1..NTraces /\ l = 1
More == l <= Len(Ev)
E == Ev[l]
Is(name) == l <= Len(Ev) /\ Ev[l].e = name
Consume == l' = l + 1 /\ tr' = tr
Stay == UNCHANGED <<tr, l>>

ASSUME \A i \in 1..NTraces : TLCSet(i, 0)

(* CONSTRAINT: remembers how far each execution could be explained. *)
Progress == IF l > TLCGet(tr) THEN TLCSet(tr, l) ELSE TRUE

(* POSTCONDITION: lists the executions that could not be explained to the end. *)
Accepted ==
  /\ \A i \in 1..NTraces :
       \/ TLCGet(i) = Len(Traces[i].ev) + 1
       \/ PrintT(<<"REJECTED", i, TLCGet(i)>>)
  /\ PrintT(<<"VALIDATED", NTraces>>)
=============================================================================
