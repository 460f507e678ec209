------------------------------ MODULE TraceBase ------------------------------
(* Common part of the trace specifications: reads the events recorded from the real code (one JSON
   object per line), steps through them one by one, and reports every event the specification does not
   allow.  Each line is [ab: "" or how the real code failed to return, kf: "", ev: the observation]. *)
EXTENDS Strs, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
Prop == IOEnv.PROP

VARIABLE l

Report(i, why) == PrintT("MISMATCH " \o ToString(i) \o " " \o why)
\* Ck(ok, why): the reasons (a sequence of strings) contributed by one requirement.
Ck(ok, why) == IF ok THEN <<>> ELSE <<why>>

TraceInit == l = 1
\* Every trace spec defines Judge(ev): the sequence of reasons why ev is not allowed; <<>> if it is.
StepWith(Judge(_)) ==
  /\ l <= Len(Trace)
  /\ LET e == Trace[l]
         why == IF e.ab # "" THEN <<"the code did not return: " \o e.ab>> ELSE Judge(e.ev)
     IN IF why = <<>> THEN TRUE ELSE Report(l, Join(why, " ; "))
  /\ l' = l + 1
TraceAccepted == PrintT("CONSUMED " \o ToString(TLCGet("stats").diameter - 1)) /\ TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
