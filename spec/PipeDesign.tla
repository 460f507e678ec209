----------------------------- MODULE PipeDesign -----------------------------
(* An artifact that arrives through a pipe, in chunks, and is then read by several consumers, each from its start.
   The opener drains the pipe before anyone reads; every consumer sees the whole artifact, exactly once, in order. *)
EXTENDS Strs, Json
CONSTANTS Total, Handles, MaxOps, EmitCases
VARIABLES sent, buf, eof, pos, chunks, ops
vars == <<sent, buf, eof, pos, chunks, ops>>
Closed == -1
Init == sent = 0 /\ buf = 0 /\ eof = FALSE /\ pos = [h \in Handles |-> Closed] /\ chunks = <<>> /\ ops = <<>>
\* buf counts what the opener has taken; the content is identified by its positions 1..Total
Send == sent < Total /\ sent = buf /\ \E n \in 1..(Total - sent) : sent' = sent + n /\ chunks' = Append(chunks, n) /\ UNCHANGED <<buf, eof, pos, ops>>
Drain == buf < sent /\ buf' = sent /\ UNCHANGED <<sent, eof, pos, chunks, ops>>
CloseW == sent = Total /\ buf = Total /\ ~eof /\ eof' = TRUE /\ UNCHANGED <<sent, buf, pos, chunks, ops>>
Op(o) == Len(ops) < MaxOps /\ eof /\ ops' = Append(ops, o) /\ UNCHANGED <<sent, buf, eof, chunks>>
OpenH(h) == Op([k |-> "open", h |-> h, n |-> 0]) /\ pos' = [pos EXCEPT ![h] = 0]
ReadH(h) == pos[h] # Closed /\ \E n \in {1, 2, Total} : Op([k |-> "read", h |-> h, n |-> n]) /\ pos' = [pos EXCEPT ![h] = IF @ + n > Total THEN Total ELSE @ + n]
Next == Send \/ Drain \/ CloseW \/ \E h \in Handles : OpenH(h) \/ ReadH(h)
Spec == Init /\ [][Next]_vars
WholeFirst == (\E h \in Handles : pos[h] # Closed) => buf = Total
\* what a handle has been given is the prefix its own reads ask for, whatever the others do
RECURSIVE Given(_, _, _)
Given(h, i, p) == IF i > Len(ops) THEN p
   ELSE IF ops[i].h # h THEN Given(h, i + 1, p)
   ELSE IF ops[i].k = "open" THEN Given(h, i + 1, 0)
   ELSE Given(h, i + 1, IF p + ops[i].n > Total THEN Total ELSE p + ops[i].n)
Independent == \A h \in Handles : pos[h] = Given(h, 1, Closed)
Emit == EmitCases /\ Len(ops) = MaxOps => PrintT("CASE " \o ToJson([chunks |-> chunks, ops |-> ops]))
=============================================================================
