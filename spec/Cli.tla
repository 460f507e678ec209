-------------------------------- MODULE Cli --------------------------------
(* The commands: how an invocation ends (C25). *)
EXTENDS Strs

Groups == {"", "image", "layer", "python"}
Leaves == {"image build", "layer dir", "layer gobuild", "layer squash", "layer wheel", "python getwheel", "python inspect"}
LayerIn == {"good", "gz", "missing", "dir", "cutgz", "eio"}
\* What the inputs of a command can be like, slot by slot.
Slots(cmd) ==
  CASE cmd = "image build" -> <<{"none", "good", "missing", "garbage", "dir", "cut", "eio"}, LayerIn, LayerIn, {"none", "good", "bad"}>>
    [] cmd = "layer dir" -> <<{"good", "missing", "noread", "nolist", "eio"}>>
    [] cmd = "layer gobuild" -> <<{"good", "missing", "fails"}, {"stdout", "file", "nodir", "baddir"}>>
    [] cmd = "layer squash" -> <<LayerIn \cup {"garbage", "cut"}, LayerIn \cup {"garbage", "cut"}>>
    [] cmd = "layer wheel" -> <<{"good", "missing", "dir", "garbage", "unknown", "noshebang", "relative", "nocompile", "nocompiler", "compilefails", "eio"}, {"good", "missing", "dir", "garbage", "cut", "tampered", "eio"}>>
    [] cmd = "python getwheel" -> <<{"good", "bad"}, {"good", "down", "nopage", "nolink", "nofile", "cut", "wrong"}>>
    [] cmd = "python inspect" -> <<{"good", "missing", "fails", "junk", "bad64", "nodirs"}, {"none", "good", "missing", "garbage", "eio"}, {"good", "missing", "noload", "norun", "runjunk", "norm"}>>
    [] OTHER -> <<>>
\* The number of the slot after which the others do not matter: without an image there is no engine.
Relevant(i, n) == ~(i.cmd = "python inspect" /\ n = 3 /\ i.ins[2] = "none")
Harmless == {"good", "gz", "none", "stdout", "file"}
\* A slot that makes the command fail; an injected fault does only if it happened.
SlotBad(i, n) == Relevant(i, n) /\ i.ins[n] \notin Harmless /\ (i.ins[n] = "eio" => i.inj)
\* An invalid name of an image or of a wheel can be taken for a run-time or for a usage error.
Either(i, n) == i.ins[n] = "bad"

\* An invocation is [cmd, flag: ok/unknown/novalue/badvalue, help: no/flag/word, args: few/ok/many, req: the required flag
\*   is there, ins, out: pipe/full/faulty, inj: the injected fault happened].
Outcome(i) ==
  IF i.help = "word" THEN "help"
  ELSE IF i.flag # "ok" THEN "usage"
  ELSE IF i.help = "flag" THEN "help"
  ELSE IF i.cmd \in Groups THEN (IF i.args = "ok" THEN "bare" ELSE "usage")
  ELSE IF i.args # "ok" \/ ~i.req THEN "usage"
  ELSE LET B == {n \in 1..Len(i.ins) : SlotBad(i, n)} IN
       IF B # {} THEN (IF \E n \in B : Either(i, n) THEN "fail12" ELSE "fail")
       \* what goes to a file of its own needs no standard output
       ELSE IF (i.out = "full" \/ (i.out = "faulty" /\ i.inj)) /\ ~(i.cmd = "layer gobuild" /\ i.ins[2] = "file") THEN "fail"
       ELSE "ok"
\* What can be seen of it: [rc, whole: a complete result was written, any: something was, msg: something on standard error,
\*   ptr: which points at the help].
Allowed(o, r) ==
  CASE o = "usage" -> r.rc = 2 /\ ~r.any /\ r.msg /\ r.ptr
    [] o = "bare" -> r.rc = 2 /\ ~r.any /\ r.msg
    [] o = "help" -> r.rc = 0 /\ r.any
    [] o = "fail" -> r.rc = 1 /\ r.msg /\ ~r.whole
    [] o = "fail12" -> r.rc \in {1, 2} /\ r.msg /\ ~r.whole
    [] o = "ok" -> r.rc = 0 /\ r.whole
=============================================================================
