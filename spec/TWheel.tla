------------------------------- MODULE TWheel -------------------------------
(* Judges installations of wheels, and config files. *)
EXTENDS Wheel, Pyc, TraceBase

Schemes(pl) == {pl.pure, pl.plat, pl.head, pl.scr, pl.data}
PlatOf(p) == [p EXCEPT !.pure = AbsClean(@), !.plat = AbsClean(@), !.head = AbsClean(@), !.scr = AbsClean(@), !.data = AbsClean(@)]
Rounded(m) == IF m.n >= 500000000 THEN m.s + 1 ELSE m.s
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
TimesOf(ev) == [mins |-> ev.min,
                clamp |-> [s |-> IF ev.max # <<>> THEN ev.max[1] ELSE 1 + MaxOf({Rounded(ev.ms[i]) : i \in 1..Len(ev.ms)}), n |-> 0]]
HasHook(ev, k) == \E i \in 1..Len(ev.hooks) : ev.hooks[i].k = k
Hook(ev, k) == ev.hooks[CHOOSE i \in 1..Len(ev.hooks) : ev.hooks[i].k = k]

\* The digests that RECORD can be written with; "" is the default one.
Digests == {"", "md5", "sha1", "sha224", "sha256", "sha384", "sha512"}
\* What is to be installed: [why: "" or why it is refused, odd, F, info, scripts]
RECURSIVE Hooked(_, _, _, _, _)
Hooked(F, hs, i, A, times) ==
  IF i > Len(hs) THEN F
  ELSE LET h == hs[i] G ==
         CASE h.k = "scripts" -> WithScripts(F, A.scripts, A.plat, times)
           [] h.k = "req" -> WithFile(F, Append(A.info, "REQUESTED"), IF h.s = "" THEN "" ELSE h.s \o "\n", times)
           [] h.k = "record" -> LET G1 == WithFile(F, Append(A.info, "INSTALLER"), h.s \o "\n", times)
                                    G2 == IF h.url THEN WithFile(G1, Append(A.info, "direct_url.json"), "*", times) ELSE G1
                                IN WithFile(G2, Append(A.info, "RECORD"), "*", times)
       IN Hooked(TLCEval(G), hs, i + 1, A, times)
Refused(why) == [why |-> why, odd |-> FALSE]
SrcData(ev, F) ==
  LET S == {p \in DOMAIN F : IsPy(F[p])} IN
  [p \in S |-> IF ev.real THEN "*" ELSE LET I == {i \in 1..Len(ev.srcs) : ev.srcs[i].c = p} IN IF I = {} THEN "?" ELSE ev.srcs[MinOf(I)].out]
Want(ev) ==
  LET ms == ev.ms pl == PlatOf(ev.plat) IN
  IF ~ev.zok THEN Refused("not an archive")
  ELSE IF ~ev.plat.usable THEN Refused("the platform has no interpreter or a relative directory")
  ELSE LET w1 == TLCEval(Integrity(ms)) IN IF w1 # "" THEN Refused(w1)
  ELSE LET k == PlaceCtx(ms, pl) w2 == TLCEval(Layout(ms, k)) IN IF w2 # "" THEN Refused(w2)
  ELSE LET times == TLCEval(TimesOf(ev)) info == Append(k.root, k.info)
           F0 == TLCEval(Placed(ms, k, times)) F1 == TLCEval(WithCompiled(F0, ev.tag, SrcData(ev, F0), times))
           D == TLCEval(IF HasHook(ev, "scripts") THEN Declared(EPLines(F1, ms, info)) ELSE [ok |-> TRUE, odd |-> FALSE, scripts |-> {}]) IN
       IF ~D.ok THEN [why |-> "malformed entry points", odd |-> D.odd]
       ELSE LET F2 == TLCEval(Hooked(F1, ev.hooks, 1, [plat |-> pl, info |-> info, scripts |-> D.scripts], times)) IN
            IF \E i \in 1..Len(ev.hooks) : ev.hooks[i].k = "record" /\ ev.hooks[i].hash \notin Digests THEN Refused("the digest that is asked for does not exist")
            ELSE IF BelowFile(F2) # {} THEN Refused("a file is below a file")
            ELSE [why |-> "", odd |-> D.odd \/ Unsure(ms), F |-> TLCEval(WithParents(F2, times)), F0 |-> F0, info |-> info, scripts |-> D.scripts, plat |-> pl]

OutAt(ev, p) == LET S == {i \in 1..Len(ev.out) : ev.out[i].p = p} IN IF S = {} THEN 0 ELSE MinOf(S)
\* The expected entry, with what is open replaced by what is there.
Concrete(e, ev, pl) ==
  LET o == OutAt(ev, e.c) IN
  [c |-> e.c, t |-> e.t, link |-> "", mode |-> e.mode, uid |-> pl.uid, gid |-> pl.gid, un |-> {pl.un}, gn |-> {pl.gn},
   when |-> LET S == {t \in e.whens : o # 0 /\ StampOK(ev.out[o].s, t)} IN IF S # {} THEN CHOOSE t \in S : TRUE ELSE CHOOSE t \in e.whens : TRUE,
   data |-> IF e.data = "*" /\ o # 0 THEN ev.out[o].data ELSE e.data]
RECURSIVE Listed(_)
Listed(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o Listed(S \ {x})
LayerWhy(ev, A) == EntriesWhy(SelectSeq(ev.out, LAMBDA o : o.p # <<>>), TLCEval(Ordered(Listed({Concrete(A.F[p], ev, A.plat) : p \in DOMAIN A.F}))))

\* C05: the members that were installed have the content that was verified.
Verified(ev, A) == \A p \in DOMAIN A.F0 : (A.F[p] = A.F0[p] /\ A.F0[p].t = "reg") => LET o == OutAt(ev, p) IN o # 0 /\ ev.out[o].data = A.F0[p].data
C05Why(ev, A) ==
  (IF A.why # "" /\ Integrity(ev.ms) # "" THEN Ck(ev.err # "" \/ A.odd, "installed although " \o A.why) ELSE <<>>)
  \o Ck(ev.err = "" \/ ev.sums = <<>> \/ ev.sums[1] # "a layer and an error", "both a layer and an error")
  \o (IF ev.err = "" /\ A.why = "" THEN Ck(Verified(ev, A), "the installed content is not the verified one") ELSE <<>>)

MustWork(ev, A) == IF A.why = "" /\ ~A.odd THEN Ck(ev.err = "", "not installed: " \o ev.err) ELSE <<>>
C06Why(ev, A) ==
  MustWork(ev, A)
  \o (IF A.why # "" /\ ~A.odd THEN Ck(ev.err # "", "installed although " \o A.why) ELSE <<>>)
  \o (IF ev.err = "" /\ A.why = "" /\ ~A.odd THEN LET y == LayerWhy(ev, A) IN Ck(y = "", y)
        \o Ck(ev.real \/ {<<ev.srcs[i].c, ev.srcs[i].data>> : i \in 1..Len(ev.srcs)} = {<<p, A.F0[p].data>> : p \in {p \in DOMAIN A.F0 : IsPy(A.F0[p])}}, "what is compiled is not what is installed")
      ELSE <<>>)

Name(o) == IF HasSuffix(o.name, "/") THEN DropSuffix(o.name, "/") ELSE o.name
CleanName(o) == Name(o) = "." \/ (~o.ab /\ Name(o) = Join(o.p, "/") /\ o.p # <<>> /\ o.p[1] # "..")
Inside(o, pl) == \E s \in Schemes(pl) : IsPrefixEq(s, o.p) \/ (o.t = "dir" /\ IsPrefixEq(o.p, s))
C07Why(ev, A) ==
  LET pl == PlatOf(ev.plat) bad == {i \in 1..Len(ev.out) : ~CleanName(ev.out[i]) \/ ~Inside(ev.out[i], pl)} IN
  Ck(bad = {}, "an entry outside of the scheme: " \o (IF bad = {} THEN "" ELSE ev.out[MinOf(bad)].name))
  \o Ck(ev.left = <<>>, "left on the host: " \o ToString(ev.left))
  \o (IF ev.zok /\ \E i \in 1..Len(ev.ms) : Outside(ev.ms[i]) THEN Ck(ev.err # "", "installed although a name is outside of the archive") ELSE <<>>)
  \o (IF A.why # "" /\ ~A.odd THEN Ck(ev.err # "", "installed although " \o A.why) ELSE <<>>)
  \o Ck(\A i, j \in 1..Len(ev.out) : i < j => ev.out[i].p # ev.out[j].p, "two entries for one place")
  \o Ck(\A i \in 1..Len(ev.srcs) : \E s \in Schemes(pl) : IsPrefixEq(s, Clean(ev.srcs[i].c)) /\ Clean(ev.srcs[i].c) = ev.srcs[i].c, "a source outside of the scheme is compiled")
  \o MustWork(ev, A)

TxtWhy(ev, A) == LET bad == {p \in DOMAIN A.F : A.F[p].txt # "*" /\ LET o == OutAt(ev, p) IN o = 0 \/ ev.out[o].txt # A.F[p].txt} IN
  Ck(bad = {}, "missing or wrong: " \o ToString(bad))
C08Why(ev, A) ==
  MustWork(ev, A)
  \o (IF A.why # "" /\ ~A.odd /\ HasHook(ev, "record") THEN Ck(ev.err # "", "installed although " \o A.why) ELSE <<>>)
  \o (IF ev.err # "" \/ A.why # "" \/ A.odd THEN <<>>
      ELSE TxtWhy(ev, A)
        \o (IF ~HasHook(ev, "record") THEN <<>>
            ELSE LET sums == TLCEval([p \in {ev.out[i].p : i \in 1..Len(ev.out)} |-> ev.out[OutAt(ev, p)]])
                     at == OutAt(ev, Append(A.info, "RECORD")) u == OutAt(ev, Append(A.info, "direct_url.json"))
                     y == IF (IF at = 0 THEN TRUE ELSE ~ev.out[at].recok) THEN "no readable RECORD"
                          ELSE IF \E p \in DOMAIN A.F : p \notin DOMAIN sums THEN "not everything is installed"
                          ELSE RecordWhy(ev.out[at].rec, A.F, A.info, sums) IN
                 Ck(y = "", y) \o Ck(~Hook(ev, "record").url \/ (IF u = 0 THEN FALSE ELSE ev.out[u].url = "same"), "direct_url.json is not what was asked for"))
        \o Ck(\A f \in {"RECORD.jws", "RECORD.p7s"} : OutAt(ev, Append(A.info, f)) = 0, "a signature of the old RECORD is installed")
        \o Ck(\A f \in {"REQUESTED", "direct_url.json", "INSTALLER", "RECORD"} : OutAt(ev, Append(A.info, f)) = 0 \/ Append(A.info, f) \in DOMAIN A.F, "metadata nobody asked for"))

RunOf(ev, n) == LET S == {i \in 1..Len(ev.runs) : ev.runs[i].name = n} IN IF S = {} THEN 0 ELSE MinOf(S)
\* The script acts as one of the declarations of its name says.
Acts(r, s, pl) == r.exc = "" /\ Len(r.calls) = 1 /\ r.calls[1].mod = s.ref[1] /\ r.calls[1].obj = s.ref[2] /\ r.calls[1].args = 0 /\ r.exit = r.want
                  /\ r.line1 = "#!" \o (IF s.kind = "gui_scripts" THEN pl.gui ELSE pl.con)
C09Why(ev, A) ==
  MustWork(ev, A)
  \o (IF A.why = "malformed entry points" /\ ~A.odd THEN Ck(ev.err # "", "malformed entry points are accepted") ELSE <<>>)
  \o (IF ev.err # "" \/ A.why # "" \/ A.odd THEN <<>>
      ELSE LET names == {s.name : s \in A.scripts}
               bad == {n \in names : ~(LET i == RunOf(ev, n) o == OutAt(ev, Append(A.plat.scr, n)) IN i # 0 /\ o # 0 /\ ev.out[o].t = "reg" /\ ev.out[o].mode = 493 /\ \E s \in A.scripts : s.name = n /\ Acts(ev.runs[i], s, A.plat))}
               extra == {i \in 1..Len(ev.out) : Len(ev.out[i].p) > Len(A.plat.scr) /\ IsPrefixEq(A.plat.scr, ev.out[i].p) /\ ev.out[i].p \notin DOMAIN A.F} IN
           Ck(bad = {}, "the script does not do what is declared: " \o ToString(bad) \o " " \o ToString(ev.runs))
           \o Ck(extra = {}, "a script nobody declared"))

\* C27: the compiled files are right for the sources as they are installed.
CompiledWhy(ev, p, clamp) ==
  LET a == OutAt(ev, p) b == OutAt(ev, PycPath(p, ev.tag)) IN
  IF a = 0 \/ b = 0 THEN "not installed or not compiled"
  ELSE LET o == ev.out[a] IN PycWhy(ev.out[b].py, [c |-> o.p, size |-> o.size, py |-> o.py], o.s, FlagsFor(ev.inval, clamp))
C27Why(ev, A) ==
  MustWork(ev, A)
  \o Ck(ev.left = <<>>, "left on the host: " \o ToString(ev.left))
  \o (IF ev.err # "" \/ A.why # "" \/ A.odd THEN <<>>
      ELSE LET S == {p \in DOMAIN A.F0 : IsPy(A.F0[p]) /\ A.F[p] = A.F0[p]}
               bad == TLCEval({p \in S : CompiledWhy(ev, p, TimesOf(ev).clamp.s) # ""}) IN
           Ck(bad = {}, IF bad = {} THEN "" ELSE LET p == CHOOSE p \in bad : TRUE IN Join(p, "/") \o ": " \o CompiledWhy(ev, p, TimesOf(ev).clamp.s)))

C15Why(ev) == Ck(\A i \in 1..Len(ev.sums) : ev.sums[i] = ev.sums[1], "another run gives another layer")
  \o LET late == {i \in 1..Len(ev.out) : ev.err = "" /\ ~(ev.out[i].s <= TimesOf(ev).clamp.s)} IN Ck(late = {}, "a timestamp is after the clamp time")

WheelWhy(raw) ==
  LET ev == TLCEval([raw EXCEPT !.ms = WithNames(raw.ms), !.out = [i \in 1..Len(raw.out) |-> raw.out[i] @@ [p |-> Clean(raw.out[i].c)]]]) IN
  IF ev.skip THEN <<>>
  ELSE IF Prop = "C15" THEN C15Why(ev)
  ELSE LET A == TLCEval(Want(ev)) IN
  CASE Prop = "C05" -> C05Why(ev, A) [] Prop = "C06" -> C06Why(ev, A) [] Prop = "C07" -> C07Why(ev, A) [] Prop = "C08" -> C08Why(ev, A) [] Prop = "C09" -> C09Why(ev, A) [] Prop = "C27" -> C27Why(ev, A)

\* ini: [lines, strict, empties, ep, err, secs, opts, same]
IniWhy(ev) ==
  LET cfg == IF ev.ep THEN EPCfg ELSE [delims |-> <<"=", ":">>, comments |-> <<"#", ";">>, strict |-> ev.strict, empties |-> ev.empties, lower |-> TRUE]
      st == TLCEval(Read(ev.lines, cfg)) IN
  IF \E i \in 1..Len(ev.lines) : OddLine(ev.lines[i]) THEN <<>>
  ELSE IF st.err THEN Ck(ev.err, "no error for a malformed file")
  ELSE IF ev.err THEN <<"an error for a well-formed file">>
  ELSE Ck(Range(ev.secs) = SecNames(st), "sections " \o ToString(ev.secs))
    \o Ck(Range(ev.opts) = Triples(st) /\ Len(ev.opts) = Cardinality(Triples(st)), "options " \o ToString(ev.opts) \o " instead of " \o ToString(Triples(st)))
    \o Ck(ev.same, "a newline at the end makes a difference")

Judge(ev) == CASE ev.k = "wheel" -> WheelWhy(ev) [] ev.k = "ini" -> IniWhy(ev)
TraceNext == StepWith(Judge)
TraceSpec == TraceInit /\ [][TraceNext]_l
=============================================================================
