------------------------------- MODULE TImage -------------------------------
(* Judges images, pipes, the container engine, and looking programs up in images. *)
EXTENDS Inspect, Image, TraceBase
RECURSIVE Reasons(_, _)
Reasons(Op(_), n) == IF n = 0 THEN <<>> ELSE Reasons(Op, n - 1) \o Op(n)

\* ---- image build: [base: image, adds, f, tag, bad, rc, out] ----
SetOf(s) == {s[i] : i \in 1..Len(s)}
CfgOf(c) == [env |-> c.env, ep |-> c.ep, cmd |-> c.cmd, wd |-> c.wd, rest |-> SetOf(c.rest), hist |-> c.hist]
\* the name a tag denotes: without a version it means "latest"
FullTag(t) == IF IndexOf(FileOf(t), ":") = 0 THEN t \o ":latest" ELSE t
BuildWhy(ev) ==
  IF ev.bad THEN Ck(ev.rc # 0 /\ ~ev.out.ok, "an unreadable input gave exit status " \o ToString(ev.rc) \o (IF ev.out.ok THEN " and a complete image" ELSE "")) \o Ck(~ev.crash, "an unreadable input crashed the build")
  ELSE IF ev.rc # 0 THEN <<"unexpected failure: " \o ev.err>>
  ELSE IF ~ev.out.ok THEN <<"the output is not an image: " \o ev.out.why>>
  ELSE LET want == BuildImage([layers |-> ev.base.layers, cfg |-> CfgOf(ev.base.cfg)], ev.adds, ev.f) got == CfgOf(ev.out.cfg) IN
       Ck(ev.out.layers = want.layers, "layers " \o ToString(ev.out.layers) \o " instead of " \o ToString(want.layers))
    \o Ck(got = want.cfg, "configuration " \o ToString(got) \o " instead of " \o ToString(want.cfg))
    \o Ck(SubSeq(ev.out.cfg.hists, 1, Len(ev.base.cfg.hists)) = ev.base.cfg.hists, "the history of the base is not kept")
    \o Ck(ev.out.tags = (IF ev.tag = "" THEN <<>> ELSE <<FullTag(ev.tag)>>), "tags " \o ToString(ev.out.tags) \o " for '" \o ev.tag \o "'")
    \o Reasons(LAMBDA i : Ck(ev.out.sums[i].name = ev.out.sums[i].sum, ev.out.sums[i].what \o ": recorded " \o ev.out.sums[i].name \o ", is " \o ev.out.sums[i].sum), Len(ev.out.sums))
\* each build is based on the result of the one before
ImageWhy(ev) == Reasons(LAMBDA i : BuildWhy(ev.builds[i]), Len(ev.builds))

\* ---- pipes: [content, form, chunks, ops with what they gave, err, diff, dig..] ----
PipeOps(ev) ==
  LET N == Len(ev.content)
      RECURSIVE Go(_, _)
      Go(i, pos) ==
        IF i > Len(ev.ops) THEN <<>>
        ELSE LET o == ev.ops[i] IN
          IF o.err # "" THEN <<"operation " \o ToString(i) \o " failed: " \o o.err>>
          ELSE IF o.k = "open" THEN Go(i + 1, [pos EXCEPT ![o.h] = 0])
          ELSE LET q == IF pos[o.h] + o.n > N THEN N ELSE pos[o.h] + o.n IN
               Ck(o.got = SubSeq(ev.content, pos[o.h] + 1, q), "read " \o ToString(i) \o " gave '" \o o.got \o "'") \o Go(i + 1, [pos EXCEPT ![o.h] = q])
  IN Go(1, [h \in 0..9 |-> 0])
PipeWhy(ev) ==
  IF ~ev.valid THEN Ck(ev.err # "", "no error for an unreadable artifact")
  ELSE IF ev.err # "" THEN <<"unexpected error: " \o ev.err>>
  ELSE PipeOps(ev)
    \o Reasons(LAMBDA i : LET s == ev.sums[i] IN Ck(s.a = s.b, s.what \o ": " \o s.a \o " / " \o s.b), Len(ev.sums))

\* ---- the engine: [fault, calls: seq of [k, tag], ret, panicked] ----
CallsOf(ev, k) == SelectSeq(ev.calls, LAMBDA x : x.k = k)
PosOf(ev, k) == {i \in 1..Len(ev.calls) : ev.calls[i].k = k}
DockerWhy(ev) ==
  LET f == ev.fault
      loads == CallsOf(ev, "load") acts == CallsOf(ev, "act") rms == CallsOf(ev, "rm")
      works == f.engine = "ok" /\ f.cancel \notin {"before", "load"} /\ f.load = "ok" /\ f.img = "ok"
  IN Ck(\A i \in PosOf(ev, "loaded"), k \in PosOf(ev, "rm") : i < k, "removed while the engine was still loading: " \o ToString(ev.calls)) \o
      IF ~works
     THEN Ck(acts = <<>>, "the action ran although the image was not loaded") \o Ck(ev.ret # "", "no error although the image was not loaded")
       \o Ck(Len(rms) <= 1, "removed more than once") \o Ck(~ev.panicked, "panic")
     ELSE Ck(Len(loads) = 1, "loaded " \o ToString(Len(loads)) \o " times")
       \o Ck(Len(acts) = 1, "the action ran " \o ToString(Len(acts)) \o " times")
       \o Ck(Len(rms) = 1, "the image was removed " \o ToString(Len(rms)) \o " times")
       \o (IF Len(loads) = 1 /\ Len(acts) = 1 /\ Len(rms) = 1
           THEN Ck(\A i \in PosOf(ev, "load"), j \in PosOf(ev, "act"), k \in PosOf(ev, "rm") : i < j /\ j < k, "wrong order: " \o ToString(ev.calls))
             \o Ck(loads[1].tag = acts[1].tag /\ acts[1].tag = rms[1].tag /\ loads[1].tag # "", "different names: " \o ToString(ev.calls))
             \o Ck(loads[1].sum = ev.sum, "another image was loaded")
           ELSE <<>>)
       \o Ck(ev.panicked = (f.act = "panic"), "panicked: " \o ToString(ev.panicked))
       \o (IF f.act = "panic" THEN <<>>
           ELSE IF f.act = "fail" THEN Ck(ev.ret = "act", "the error of the action was not reported: " \o ev.ret)
           ELSE IF f.rm = "fail" THEN Ck(ev.ret \notin {"", "act"}, "the failing removal was not reported")
           ELSE Ck(ev.ret = "", "unexpected error: " \o ev.ret))

\* several images at once, one engine: [acts, calls, sums, rets].  The engine maps names to images.
EngineWhy(ev) ==
  LET N == Len(ev.calls)
      RECURSIVE Go(_, _, _)
      \* eng: the loaded names; busy: session -> the name its action works with
      Go(i, eng, busy) ==
        IF i > N THEN Ck(eng = <<>>, "images left behind: " \o ToString(eng)) \o Ck(busy = <<>>, "unfinished actions: " \o ToString(busy))
        ELSE LET c == ev.calls[i] IN
          CASE c.k = "loaded" -> (IF c.tag = "" THEN <<"the engine was given no image: " \o c.sum>> ELSE Ck(c.tag \notin DOMAIN eng, "the name '" \o c.tag \o "' was loaded twice"))
                                 \o Go(i + 1, (c.tag :> c.sum) @@ eng, busy)
            [] c.k = "act" -> (IF c.tag \in DOMAIN eng THEN Ck(eng[c.tag] = ev.sums[c.s], "the action of session " \o ToString(c.s) \o " was given another image") ELSE <<"the action of session " \o ToString(c.s) \o " was given a name that is not loaded">>)
                              \o Go(i + 1, eng, (c.s :> c.tag) @@ busy)
            [] c.k = "end" -> (IF c.tag \in DOMAIN eng THEN Ck(eng[c.tag] = ev.sums[c.s], "the image of session " \o ToString(c.s) \o " was replaced during its action") ELSE <<"the image of session " \o ToString(c.s) \o " was removed during its action">>)
                              \o Go(i + 1, eng, [x \in DOMAIN busy \ {c.s} |-> busy[x]])
            [] c.k = "rm" -> Ck(c.tag \in DOMAIN eng, "removal of '" \o c.tag \o "', which is not loaded")
                             \o Go(i + 1, [x \in DOMAIN eng \ {c.tag} |-> eng[x]], busy)
            [] OTHER -> Go(i + 1, eng, busy)
  IN Go(1, <<>>, <<>>)
     \o Reasons(LAMBDA i : LET a == ev.acts[i] r == ev.rets[i] IN
           Ck(r.panicked = (a = "panic"), "session " \o ToString(i) \o " panicked: " \o ToString(r.panicked))
        \o (IF a = "panic" THEN <<>> ELSE Ck(r.ret = (IF a = "fail" THEN "act" ELSE ""), "session " \o ToString(i) \o " returned '" \o r.ret \o "'"))
        \o Ck(Cardinality({j \in 1..N : ev.calls[j].k = "act" /\ ev.calls[j].s = i}) = 1, "the action of session " \o ToString(i) \o " did not run once"), Len(ev.acts))

\* ---- looking up: [layers, env, wd, looks, stats, bangs] ----
InspectWhy(ev) ==
  LET u == TLCEval(Unpack(EmptyFS, ev.layers)) IN
  IF ~u.ok THEN <<>>
  ELSE Reasons(LAMBDA i : LET x == ev.looks[i] w == LookPath(u.fs, ev.env, ev.wd, x.f) s == Shebangs(u.fs, ev.env, ev.wd, x.f) IN
            Ck(x.ok = w.ok /\ x.p = w.p, "looking up '" \o x.f \o "' gave " \o ToString(<<x.ok, x.p>>) \o " instead of " \o ToString(<<w.ok, w.p>>))
         \o Ck(x.sok = s.ok /\ x.sc = s.c /\ x.sg = s.g, "the interpreters for '" \o x.f \o "' are " \o ToString(<<x.sok, x.sc, x.sg>>) \o " instead of " \o ToString(s)), Len(ev.looks))
    \o Reasons(LAMBDA i : LET x == ev.stats[i] r == Lookup(u.fs, PathComps(x.p), TRUE) IN
         IF ~IsAbs(x.p) THEN Ck(~x.ok, "stat of the relative '" \o x.p \o "'")
         ELSE IF r.e = "" /\ u.fs[r.p].m # "?" THEN Ck(x.ok /\ x.m = u.fs[r.p].m /\ x.dir = (u.fs[r.p].t = "dir"), "stat of '" \o x.p \o "' gave " \o ToString(x) \o " for " \o ToString(u.fs[r.p]))
         ELSE Ck(~x.ok, "stat of '" \o x.p \o "', which has no entry, succeeded"), Len(ev.stats))

Judge(ev) == CASE ev.k = "image" -> ImageWhy(ev) [] ev.k = "pipe" -> PipeWhy(ev) [] ev.k = "docker" -> DockerWhy(ev) [] ev.k = "engine" -> EngineWhy(ev) [] ev.k = "inspect" -> InspectWhy(ev)
TraceNext == StepWith(Judge)
TraceSpec == TraceInit /\ [][TraceNext]_l
=============================================================================
