------------------------------- MODULE TFiles -------------------------------
(* Judges layers made from files, and builds into an output file. *)
EXTENDS Files, TraceBase

Distinct(f) == \A i, j \in 1..Len(f) : i # j => f[i].c # f[j].c
\* refs: [files: seq of nodes, cs, cn, err, outs: one sequence of entries per order, sums: the digests]
RefEntry(x, ev) == [c |-> x.c, t |-> x.t, link |-> x.link, mode |-> x.mode, uid |-> x.uid, gid |-> x.gid, un |-> {x.un}, gn |-> {x.gn},
                    when |-> Clamped([s |-> x.s, n |-> x.n], [s |-> ev.cs, n |-> ev.cn]), data |-> x.data]
RefsWhy(ev) ==
  IF ev.bad THEN Ck(ev.err # "" /\ ev.sums = <<>>, "a layer although a file cannot be read")
  ELSE IF ev.err # "" THEN <<"unexpected error: " \o ev.err>>
  ELSE LET f == TLCEval(Ordered(ev.files)) y == EntriesWhy(ev.out, [i \in 1..Len(f) |-> RefEntry(f[i], ev)]) IN
       Ck(\A i \in 1..Len(ev.sums) : ev.sums[i] = ev.sums[1], "another order of the files, or another run, gives another layer")
    \o Ck(y = "", y)
    \o Ck(ev.late = 0, "the access or change time of an entry is after the clamp time")

\* now: [set, val, vals, t0, t1]
IntStr(v) == LET neg == HasPrefix(v, "-") b == IF neg \/ HasPrefix(v, "+") THEN SubSeq(v, 2, Len(v)) ELSE v
             IN IF ~AllDigits(b) THEN "" ELSE LET d == NumNorm(b) IN IF neg /\ d # "0" THEN "-" \o d ELSE d
NowWhy(ev) ==
  LET w == IF ev.set THEN IntStr(ev.val) ELSE "" IN
  Ck(\A i \in 1..Len(ev.vals) : ev.vals[i] = ev.vals[1] /\ ev.nanos[i] = ev.nanos[1], "the time changed during the run: " \o ToString(ev.vals))
  \o (IF w # "" THEN Ck(Len(w) > 18 \/ (ev.vals[1] = w /\ ev.nanos[1] = "0"), "SOURCE_DATE_EPOCH=" \o ev.val \o " gave " \o ev.vals[1])
      ELSE Ck(NumCmp(ev.t0, ev.vals[1]) <= 0 /\ NumCmp(ev.vals[1], ev.t1) <= 0, "without SOURCE_DATE_EPOCH the time is " \o ev.vals[1]))

\* dir: [nodes, o (with prefix pre, preab, presc), root: "dir" or what else was given, err, out, sums]
DirWhy(ev) ==
  LET pc == Clean(ev.o.rawpre) bad == ev.o.preab \/ (pc # <<>> /\ pc[1] = "..")
      o == [ev.o EXCEPT !.pre = pc] IN
  IF ev.root # "dir" THEN Ck(ev.err # "", "no error for something that is not a directory")
  ELSE IF bad /\ ~(ev.o.preab /\ (pc = <<>> \/ pc[1] # "..") /\ ev.err = "") THEN Ck(ev.err # "", "no error for a prefix outside of the image")
  ELSE IF ev.err # "" THEN <<"unexpected error: " \o ev.err>>
  ELSE LET y == EntriesWhy(ev.out, DirEntries(ev.nodes, o)) IN
       (IF Prop = "C15" THEN <<>> ELSE Ck(y = "", y))
    \o Ck(\A i \in 1..Len(ev.sums) : ev.sums[i] = ev.sums[1], "another run gives another layer")
    \o (IF Prop # "C15" THEN <<>> ELSE LET cl == [s |-> o.cs, n |-> o.cn] late == {i \in 1..Len(ev.out) : ~(ev.out[i].s <= cl.s \/ StampOK(ev.out[i].s, cl))} IN
          Ck(late = {}, "a timestamp is after the clamp time"))

\* diff: [a, b: seq of tokens of headers without times and of contents; ok; eq; err]
DiffWhy(ev) ==
  IF ~ev.valid THEN Ck(ev.err # "" \/ ~ev.eq, "an unreadable layer equals another one")
  ELSE IF ev.err # "" THEN <<"unexpected error: " \o ev.err>>
  ELSE Ck(ev.eq = (ev.a = ev.b), IF ev.eq THEN "different layers are called equal" ELSE "layers that differ only in time are called different: " \o ev.what)
    \o Ck(ev.eq2 = ev.eq, "the comparison is not symmetric")

\* gobuild: seq of steps [k, rc, nodes, o, old, new: [id, ents], temps]
LayerIs(f, st) == f.k = "layer" /\ EntriesWhy(f.ents, DirEntries(st.nodes, st.o)) = ""
\* the same entries, whatever the times
SameBut(f, st) == f.k = "layer" /\ LET w == DirEntries(st.nodes, st.o) IN
   Len(f.ents) = Len(w) /\ EntriesWhy(f.ents, [i \in 1..Len(w) |-> [w[i] EXCEPT !.when = [s |-> f.ents[i].s, n |-> 0]]]) = ""
StepWhy(st) ==
  IF st.k \in {"junk", "delete", "lock"} THEN <<>>
  ELSE LET same == SameBut(st.old, st)
           old == IF st.old.k = "junk" THEN "junk" ELSE "old"
           new == IF st.new.sum = st.old.sum THEN old ELSE IF LayerIs(st.new, st) THEN "new" ELSE "broken" IN
       Ck(MayBe(st.k, st.rc, old, new, same), st.k \o " with exit status " \o ToString(st.rc) \o " left the file " \o new \o
            (IF new = "broken" THEN " (" \o st.new.k \o ": " \o (IF st.new.k = "layer" THEN EntriesWhy(st.new.ents, DirEntries(st.nodes, st.o)) ELSE "not a layer") \o ")" ELSE "") \o (IF same THEN ", unchanged" ELSE ", changed"))
    \o Ck(st.k \in {"kill", "inject"} \/ st.temps = <<>>, "temporary files remain: " \o ToString(st.temps))
RECURSIVE StepsWhy(_, _)
StepsWhy(ss, i) == IF i > Len(ss) THEN <<>> ELSE StepWhy(ss[i]) \o StepsWhy(ss, i + 1)

\* golayer (C28): [works, nodes, o, pkgs, cgo, flags: of the caller; err, layer: there is one despite the error, ents; called, args, goos, goarch, sawcgo, sawflags, sawcwd; temps]
EndsWith(s, t) == Len(t) <= Len(s) /\ SubSeq(s, Len(s) - Len(t) + 1, Len(s)) = t
GoLayerWhy(ev) ==
  Ck(ev.temps = <<>>, "temporary files remain: " \o ToString(ev.temps))
  \o (IF ev.real THEN Ck(ev.err = "", "the program is not built: " \o ev.err)
                      \o (IF ev.err # "" THEN <<>> ELSE Ck(ev.said = ev.text, "the program does not run here: " \o ev.said)
                          \o Ck(ev.sums[1] = ev.sums[2], "the same sources in another directory give another layer")
                          \o Ck(ev.names = <<"usr", "usr/local", "usr/local/bin", "usr/local/bin/prog">>, "other files " \o ToString(ev.names)))
      ELSE Ck(ev.called \/ ev.none \/ ev.early, "the compiler is not called")
        \o (IF ~ev.called THEN <<>> ELSE
             Ck(EndsWith(ev.args, ev.pkgs) /\ ev.args[1] = "build", "called with " \o ToString(ev.args))
             \o Ck(~HasPrefix(ev.pkgs[1], "-") \/ (LET i == Len(ev.args) - Len(ev.pkgs) IN i > 0 /\ ev.args[i] = "--"), "packages that are taken for options: " \o ToString(ev.args))
             \o Ck(ev.goos = "linux" /\ ev.goarch = "amd64", "called for " \o ev.goos \o " on " \o ev.goarch)
             \o Ck(ev.sawcgo = ev.cgo /\ ev.sawflags = ev.flags /\ ev.sawcwd = ev.cwd, "called in another environment: " \o ToString(<<ev.sawcgo, ev.sawflags, ev.sawcwd>>)))
        \o (IF ev.works THEN (IF ev.err # "" THEN <<"an error: " \o ev.err>> ELSE LET y == EntriesWhy(ev.ents, DirEntries(ev.nodes, ev.o)) IN Ck(y = "", y))
            ELSE Ck(ev.err # "", "no error") \o Ck(~ev.layer, "a layer despite the error")))

Judge(ev) == CASE ev.k = "refs" -> RefsWhy(ev) [] ev.k = "now" -> NowWhy(ev) [] ev.k = "dir" -> DirWhy(ev) [] ev.k = "diff" -> DiffWhy(ev) [] ev.k = "gobuild" -> StepsWhy(ev.steps, 1) [] ev.k = "golayer" -> GoLayerWhy(ev)
TraceNext == StepWith(Judge)
TraceSpec == TraceInit /\ [][TraceNext]_l
=============================================================================
