------------------------------- MODULE TTags -------------------------------
(* Judges the tag, file name and file mode code. *)
EXTENDS Tags, TraceBase

HugeRun(s) == \E i \in 1..Len(s) : DigEnd(s, i) - i > 18
RECURSIVE Reasons(_, _)
Reasons(Op(_), n) == IF n = 0 THEN <<>> ELSE Reasons(Op, n - 1) \o Op(n)

\* [inst: seq of tag, tags: seq of [s, ok, t, str, prod, sup, pref], inter: matrix]
TagWhy(ev) ==
  Reasons(LAMBDA i : LET e == ev.tags[i] p == ParseTag(e.s) IN
     IF e.ok # p.ok THEN <<"tag '" \o e.s \o "': accepted " \o ToString(e.ok)>>
     ELSE IF ~p.ok THEN <<>>
     ELSE Ck(e.t = p.v /\ e.str = e.s /\ e.text = e.s, "tag '" \o e.s \o "' read as " \o ToString(e.t) \o ", written " \o e.str)
       \o Ck(IsPerm(e.prod, Product(p.v)), "tag '" \o e.s \o "' expands to " \o ToString(e.prod))
       \o Ck(e.sup = Supports(ev.inst, p.v), "tag '" \o e.s \o "' supported " \o ToString(e.sup))
       \o Ck(e.pref = Preference(ev.inst, p.v), "tag '" \o e.s \o "' has preference " \o ToString(e.pref) \o ", expected " \o ToString(Preference(ev.inst, p.v)))
       \o Reasons(LAMBDA j : LET w == ParseTag(ev.tags[j].s) IN
            IF ~w.ok THEN <<>> ELSE Ck(e.inter[j] = Meets(<<p.v>>, <<w.v>>), "'" \o e.s \o "' and '" \o ev.tags[j].s \o "' meet: " \o ToString(e.inter[j])), Len(ev.tags)), Len(ev.tags))

\* names: [s, ok, dist, ver, build, tag, genok, gen, re..]; cmp: matrix of build tag comparisons
NameWhy(ev) ==
  Reasons(LAMBDA i : LET e == ev.names[i] p == TLCEval(ParseFilename(e.s)) IN
     IF e.ok # p.ok THEN IF ~e.ok /\ HugeRun(e.s) THEN <<>> ELSE <<"name '" \o e.s \o "': accepted " \o ToString(e.ok)>>
     ELSE IF ~p.ok THEN <<>>
     ELSE LET g == GenerateFilename(p.v) IN
          Ck(e.dist = p.v.dist /\ e.ver = VersionStr(p.v.ver) /\ e.build = p.v.build /\ e.tag = p.v.tag, "name '" \o e.s \o "' read as " \o ToString(e))
       \o Ck(e.genok = g.ok /\ e.gen = g.v, "name '" \o e.s \o "' generated as '" \o e.gen \o "', expected '" \o g.v \o "'")
       \o Ck(e.same, "name '" \o e.s \o "' does not survive generating and reading"), Len(ev.names))
  \o LET P == TLCEval([i \in 1..Len(ev.names) |-> ParseFilename(ev.names[i].s)]) IN
     Reasons(LAMBDA i : Reasons(LAMBDA j :
       IF ~P[i].ok \/ ~P[j].ok \/ ~ev.names[i].ok \/ ~ev.names[j].ok THEN <<>>
       ELSE Ck(ev.cmp[i][j] = CmpBuild(P[i].v.build, P[j].v.build), "builds of '" \o ev.names[i].s \o "' and '" \o ev.names[j].s \o "' compare " \o ToString(ev.cmp[i][j])), Len(ev.names)), Len(ev.names))
\* hand-made data with components that contain dashes must not give a name that reads differently
BadWhy(ev) == Reasons(LAMBDA i : LET e == ev.made[i] g == GenerateFilename([dist |-> e.dist, ver |-> ParseVersion(e.ver).v, build |-> e.build, tag |-> e.tag]) IN
     Ck(e.genok = g.ok, "generating from " \o ToString(e)) \o (IF g.ok /\ e.genok THEN Ck(e.gen = g.v, "generated " \o e.gen \o ", expected " \o g.v) ELSE <<>>), Len(ev.made))

Judge(ev) == CASE ev.k = "tags" -> TagWhy(ev) [] ev.k = "names" -> NameWhy(ev) \o BadWhy(ev)
TraceNext == StepWith(Judge)
TraceSpec == TraceInit /\ [][TraceNext]_l
=============================================================================
