------------------------------ MODULE CliDesign ------------------------------
(* A command step by step: parse the flags, help, count the arguments, read the inputs one by one, write the result in
   pieces.  Every invocation ends, it ends as Cli.Outcome says, and what can be seen of it is allowed. *)
EXTENDS Cli, Json
CONSTANTS MaxBad, EmitCases
VARIABLES i, pc, n, wrote, msg, rc
vars == <<i, pc, n, wrote, msg, rc>>
Pieces == 3
RECURSIVE Prod(_)
Prod(s) == IF s = <<>> THEN {<<>>} ELSE {<<x>> \o t : x \in Head(s), t \in Prod(Tail(s))}
BadIn(ins) == Cardinality({k \in 1..Len(ins) : ins[k] \notin Harmless})
Good(cmd) == LET s == Slots(cmd) IN [k \in 1..Len(s) |-> IF "good" \in s[k] THEN "good" ELSE CHOOSE x \in s[k] : x \in Harmless]
Inv(cmd, flag, help, args, req, ins, out, inj) == [cmd |-> cmd, flag |-> flag, help |-> help, args |-> args, req |-> req, ins |-> ins, out |-> out, inj |-> inj]
Flags == {"ok", "unknown", "novalue", "badvalue"}
Misuse == {Inv(c, f, h, a, r, Good(c), "pipe", FALSE) : c \in Groups \cup Leaves, f \in Flags, h \in {"no", "flag", "word"}, a \in {"few", "ok", "many"}, r \in BOOLEAN}
Uses == UNION {{Inv(c, "ok", "no", "ok", TRUE, ins, o, j) : ins \in {s \in Prod(Slots(c)) : BadIn(s) <= MaxBad}, o \in {"pipe", "full", "faulty"}, j \in BOOLEAN} : c \in Leaves}
Possible(v) ==
  /\ (~v.req => v.cmd = "layer wheel" /\ v.flag = "ok")
  /\ (v.cmd \in Groups => v.args # "few" /\ v.flag \in {"ok", "unknown"})
  /\ (v.args = "few" => v.cmd # "python inspect")
  /\ (v.cmd \in {"layer squash"} => v.flag \in {"ok", "unknown"})
  /\ (v.flag = "badvalue" => v.cmd = "layer dir")
  /\ (v.args = "many" => v.cmd \notin {"image build", "layer gobuild", "layer squash"})
  /\ (v.help = "word" => v.flag = "ok" /\ v.args = "ok" /\ v.req)
  \* at most one fault is injected
  /\ LET F == Cardinality({k \in 1..Len(v.ins) : v.ins[k] = "eio"}) + (IF v.out = "faulty" THEN 1 ELSE 0) IN F <= 1 /\ (F = 0 => ~v.inj)
  /\ (v.out = "full" => BadIn(v.ins) <= 1)
Init == i \in {v \in Misuse \cup Uses : Possible(v)} /\ pc = "flags" /\ n = 1 /\ wrote = 0 /\ msg = FALSE /\ rc = -1
End(k, m) == pc' = "end" /\ rc' = k /\ msg' = m /\ UNCHANGED <<i, n>>
\* the write that fails: the first, or some one
Can == i.out # "pipe" /\ (i.out = "faulty" => i.inj) /\ ~(i.cmd = "layer gobuild" /\ i.ins[2] = "file")
Must == Can /\ (i.out = "full" \/ n = Pieces - 1)
Step == \/ /\ pc = "flags" /\ IF i.help = "word" THEN pc' = "help" /\ UNCHANGED <<i, n, wrote, msg, rc>>
                              ELSE IF i.flag # "ok" THEN End(2, TRUE) /\ UNCHANGED wrote ELSE pc' = "help?" /\ UNCHANGED <<i, n, wrote, msg, rc>>
        \/ /\ pc = "help?" /\ IF i.help = "flag" THEN pc' = "help" ELSE pc' = "args"
           /\ UNCHANGED <<i, n, wrote, msg, rc>>
        \/ /\ pc = "help" /\ wrote' = 1 /\ End(0, FALSE)
        \/ /\ pc = "args" /\ IF i.args # "ok" \/ ~i.req \/ i.cmd \in Groups THEN End(2, TRUE) /\ UNCHANGED wrote ELSE pc' = "in" /\ UNCHANGED <<i, n, wrote, msg, rc>>
        \/ /\ pc = "in" /\ n <= Len(i.ins) /\ IF SlotBad(i, n) THEN End(1, TRUE) /\ UNCHANGED wrote ELSE n' = n + 1 /\ UNCHANGED <<i, pc, wrote, msg, rc>>
        \/ /\ pc = "in" /\ n > Len(i.ins) /\ pc' = "out" /\ n' = 0 /\ UNCHANGED <<i, wrote, msg, rc>>
        \/ /\ pc = "out" /\ n < Pieces
           /\ \/ n' = n + 1 /\ wrote' = wrote + 1 /\ UNCHANGED <<i, pc, msg, rc>> /\ ~Must
              \/ Can /\ End(1, TRUE) /\ UNCHANGED wrote
        \/ /\ pc = "out" /\ n = Pieces /\ End(0, FALSE) /\ UNCHANGED wrote
Next == Step
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Seen == [rc |-> rc, whole |-> wrote = Pieces, any |-> wrote > 0, msg |-> msg, ptr |-> msg]
EndsRight == pc = "end" => Allowed(Outcome(i), Seen)
\* Success means a complete result, failure a message and no result.
Honest == pc = "end" => (rc = 0 /\ i.help = "no" => wrote = Pieces) /\ (rc # 0 => msg /\ wrote < Pieces)
Ends == <>(pc = "end")
Emit == (EmitCases /\ pc = "flags" /\ ~i.inj) => PrintT("CASE " \o ToJson(i))
=============================================================================
