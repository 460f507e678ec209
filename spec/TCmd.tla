-------------------------------- MODULE TCmd --------------------------------
(* Judges invocations of the commands, and the descriptions of platforms. *)
EXTENDS Plat, TraceBase, SequencesExt
C == INSTANCE Cli

CliWhy(ev) == LET o == C!Outcome(ev) IN
  Ck(~ev.crash, "crashed") \o Ck(~ev.hung, "does not end")
  \o Ck(C!Allowed(o, ev), ev.cmd \o " " \o ToString(<<ev.flag, ev.help, ev.args, ev.req, ev.ins, ev.out, ev.inj>>) \o ": exit status " \o ToString(ev.rc) \o
        (IF ev.whole THEN ", a complete result" ELSE IF ev.any THEN ", some output" ELSE ", no output") \o (IF ev.msg THEN "" ELSE ", no message") \o " instead of " \o o)

PlatWhy(ev) == LET e == TLCEval(Expected(ev)) IN
  IF ~e.ok THEN Ck(ev.rc = 1 /\ ~ev.any /\ ev.msg, "exit status " \o ToString(ev.rc) \o " although the platform cannot be described")
  ELSE IF ev.rc # 0 THEN <<"exit status " \o ToString(ev.rc) \o ": " \o ev.text>>
  ELSE LET o == ev.out r == ev.reps[e.rep] w == ev.owners[e.owner] IN
       Ck(o.ok, "not a description: " \o ev.text)
       \o Ck(o.con = e.con /\ o.gui = e.gui, "interpreters " \o o.con \o " and " \o o.gui \o " instead of " \o e.con \o " and " \o e.gui)
       \o Ck(o.scheme = r.scheme, "scheme " \o ToString(o.scheme) \o " instead of " \o ToString(r.scheme))
       \o Ck(<<o.uid, o.gid, o.un, o.gn>> = w, "owner " \o ToString(<<o.uid, o.gid, o.un, o.gn>>) \o " instead of " \o ToString(w))
       \o Ck(o.ver = r.ver /\ o.magic = r.magic /\ o.tags = r.tags, "version, magic number or tags: " \o ToString(<<o.ver, o.magic, o.tags>>) \o " instead of " \o ToString(r))
       \o Ck(o.pyc = e.pyc, "compiler " \o ToString(o.pyc) \o " instead of " \o ToString(e.pyc))
       \* used as it is
       \o Ck(ev.used.rc = 0, "'layer wheel' does not accept the description: " \o ev.used.text)
       \o (IF ev.used.rc # 0 THEN <<>> ELSE
           Ck(ev.used.at = r.scheme[1] /\ ev.used.bin = r.scheme[4], "installed in " \o ev.used.at \o " and " \o ev.used.bin \o " instead of " \o r.scheme[1] \o " and " \o r.scheme[4])
           \o Ck(ev.used.owner = w, "installed as " \o ToString(ev.used.owner) \o " instead of " \o ToString(w))
           \o Ck(ev.used.con = e.con /\ ev.used.gui = e.gui, "scripts run by " \o ev.used.con \o " and " \o ev.used.gui))

\* Users of one array of words: each asks the interpreter its own words name, and the words stay.
AskWhy(ev) ==
  Ck(ev.after = ev.words, "the words of the caller " \o ToString(ev.words) \o " became " \o ToString(ev.after))
  \o FlattenSeq([i \in 1..Len(ev.users) |-> LET u == ev.users[i] ws == SubSeq(ev.words, 1, u.n) IN
       Ck(~u.crash, "crashed on " \o ToString(ws))
       \o (IF u.crash THEN <<>>
           ELSE IF ev.early \/ ~Answers(ws) THEN Ck(~u.ok, "described " \o ToString(ws) \o " although there is no answer")
           ELSE Ck(u.ok, "cannot describe " \o ToString(ws)) \o (IF ~u.ok THEN <<>> ELSE Ck(Append(u.seen, "inquiry") = SubSeq(ws, 2, Len(ws)) \o Inquiry, "ran " \o ToString(u.seen) \o " for " \o ToString(ws))))])

Judge(ev) == CASE ev.k = "ask" -> AskWhy(ev) [] ev.k = "cli" -> CliWhy(ev) [] ev.k = "plat" -> PlatWhy(ev)
TraceNext == StepWith(Judge)
TraceSpec == TraceInit /\ [][TraceNext]_l
=============================================================================
