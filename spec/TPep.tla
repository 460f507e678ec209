-------------------------------- MODULE TPep --------------------------------
(* Judges what the version code did.  Events:
     [k: "ver", vs: a sequence of [s: string, ok, str, fields.., re: second spelling, recmp], cmp: matrix of signs]
     [k: "spec", s, ok, clauses, str, reok, vs: [s, m, rm]]
     [k: "req", s, ok, vs: [s, m]]                                                       *)
EXTENDS Pep440, TraceBase

\* Numbers that do not fit into 63 bits need not be accepted.
RECURSIVE LongestRun(_, _, _)
LongestRun(s, i, n) == IF i > Len(s) THEN n
   ELSE LET e == DigEnd(s, i) IN IF e = i THEN LongestRun(s, i + 1, n) ELSE LongestRun(s, e, IF e - i > n THEN e - i ELSE n)
\* the label's digits are not limited
PublicPart(s) == LET i == IndexOf(s, "+") IN IF i = 0 THEN s ELSE SubSeq(s, 1, i - 1)
Huge(s) == LongestRun(PublicPart(s), 1, 0) > 18

HugeAny(s) == LongestRun(s, 1, 0) > 18

RECURSIVE Reasons(_, _)
Reasons(Op(_), n) == IF n = 0 THEN <<>> ELSE Reasons(Op, n - 1) \o Op(n)

OptStr(o) == IF o = <<>> THEN "none" ELSE o[Len(o)]
VerWhy(e) ==
  LET p == TLCEval(ParseVersion(e.s)) IN
  IF p.ok # e.ok THEN IF Huge(e.s) /\ ~e.ok THEN <<>> ELSE <<"'" \o e.s \o "': accepted " \o ToString(e.ok) \o ", expected " \o ToString(p.ok)>>
  ELSE IF ~p.ok THEN <<>>
  ELSE LET v == p.v IN
       Ck(e.pub = VersionStr(Public(v)) /\ e.pubnorm = e.pub /\ e.pubfinal = IsFinal(Public(v)), "the public part of '" \o e.s \o "' is '" \o e.pub \o "' or '" \o e.pubnorm \o "', expected '" \o VersionStr(Public(v)) \o "'")
    \o Ck(e.str = VersionStr(v), "'" \o e.s \o "' is written '" \o e.str \o "', expected '" \o VersionStr(v) \o "'")
    \o Ck(e.epoch = v.epoch /\ e.rel = v.rel /\ e.pre = v.pre /\ e.post = v.post /\ e.dev = v.dev /\ e.local = v.local, "'" \o e.s \o "' is read as " \o ToString(e))
    \o Ck(e.final = IsFinal(v) /\ e.prerelease = IsPreRelease(v), "'" \o e.s \o "': final " \o ToString(e.final) \o " pre-release " \o ToString(e.prerelease))
    \o Ck(e.mmm = <<RelAt(v, 1), RelAt(v, 2), RelAt(v, 3)>>, "'" \o e.s \o "': components " \o ToString(e.mmm))
    \o Ck(e.re = e.str /\ e.recmp = 0 /\ e.norm = e.str, "'" \o e.s \o "': spelling is not stable: " \o e.str \o ", " \o e.re \o ", " \o e.norm)
CmpWhy(ev) ==
  LET n == Len(ev.vs)
      P == TLCEval([i \in 1..n |-> ParseVersion(ev.vs[i].s)])
      pair(i, j) == IF ~ev.vs[i].ok \/ ~ev.vs[j].ok \/ ~P[i].ok \/ ~P[j].ok THEN <<>>
                    ELSE Ck(ev.cmp[i][j] = CmpVersion(P[i].v, P[j].v),
                            "'" \o ev.vs[i].s \o "' compares " \o ToString(ev.cmp[i][j]) \o " to '" \o ev.vs[j].s \o "'")
                      \o Ck(ev.pub[i][j] = CmpVersion(Public(P[i].v), Public(P[j].v)),
                            "the public part of '" \o ev.vs[i].s \o "' compares " \o ToString(ev.pub[i][j]) \o " to that of '" \o ev.vs[j].s \o "'")
      row(i) == Reasons(LAMBDA j : pair(i, j), n)
  IN Reasons(row, n)

Clauses(cs) == [i \in 1..Len(cs) |-> ClauseStr(cs[i])]
\* Space between the version and ".*" is neither allowed nor forbidden here.
Odd(s) == \E i \in 1..Len(s) - 2 : Ch(s, i) \in Space /\ SubSeq(s, i + 1, i + 2) = ".*"
SpecWhy(ev) ==
  LET p == TLCEval(ParseSpec(ev.s)) IN
  IF Odd(ev.s) THEN <<>>
  ELSE IF p.ok # ev.ok THEN IF HugeAny(ev.s) /\ ~ev.ok THEN <<>> ELSE <<"specifier '" \o ev.s \o "': accepted " \o ToString(ev.ok) \o ", expected " \o ToString(p.ok)>>
  ELSE IF ~p.ok THEN <<>>
  ELSE Ck(ev.clauses = Clauses(p.v), "specifier '" \o ev.s \o "' read as " \o ToString(ev.clauses) \o ", expected " \o ToString(Clauses(p.v)))
    \o Ck(ev.str = SpecStr(p.v), "specifier '" \o ev.s \o "' is written '" \o ev.str \o "'")
    \o Ck(ev.reok, "specifier '" \o ev.str \o "' cannot be read back")
    \o Reasons(LAMBDA i : LET w == TLCEval(ParseVersion(ev.vs[i].s)) IN
          IF ~ev.vs[i].ok \/ ~w.ok THEN <<>>
          ELSE Ck(ev.vs[i].m = MatchSpec(p.v, w.v), "'" \o ev.vs[i].s \o "' against '" \o ev.s \o "': " \o ToString(ev.vs[i].m))
            \o Ck(ev.vs[i].rm = ev.vs[i].m, "'" \o ev.vs[i].s \o "' against '" \o ev.s \o "' differs after printing and reading: " \o ev.str), Len(ev.vs))

ReqWhy(ev) ==
  LET p == TLCEval(Parse345(ev.s)) IN
  IF p.ok # ev.ok THEN IF HugeAny(ev.s) /\ ~ev.ok THEN <<>> ELSE <<"requirement '" \o ev.s \o "': accepted " \o ToString(ev.ok) \o ", expected " \o ToString(p.ok)>>
  ELSE IF ~p.ok THEN <<>>
  ELSE Ck(ev.clauses = [i \in 1..Len(p.v) |-> p.v[i].op \o VersionStr(p.v[i].ver)], "requirement '" \o ev.s \o "' read as " \o ToString(ev.clauses))
    \o Reasons(LAMBDA i : LET w == TLCEval(ParseVersion(ev.vs[i].s)) IN
          IF ~ev.vs[i].ok \/ ~w.ok THEN <<>>
          ELSE Ck(ev.vs[i].m = Match345(p.v, w.v), "'" \o ev.vs[i].s \o "' against requirement '" \o ev.s \o "': " \o ToString(ev.vs[i].m))
            \o Ck(ev.vs[i].have = ev.vs[i].m, "HaveRequiredPython differs from Match for '" \o ev.s \o "'"), Len(ev.vs))
    \o Reasons(LAMBDA i : LET o == ev.py[i] w == TLCEval(InterpVersion(o.in)) IN
          Ck(o.ok = w.ok, "interpreter " \o ToString(o.in) \o ": accepted " \o ToString(o.ok))
          \o (IF ~o.ok \/ ~w.ok THEN <<>>
              ELSE Ck(o.v = VersionStr(w.v), "interpreter " \o ToString(o.in) \o " has version " \o o.v)
                \o Ck(o.m = Match345(p.v, w.v), "interpreter " \o ToString(o.in) \o " against requirement '" \o ev.s \o "': " \o ToString(o.m))), Len(ev.py))

Judge(ev) == CASE ev.k = "ver" -> Reasons(LAMBDA i : VerWhy(ev.vs[i]), Len(ev.vs)) \o CmpWhy(ev)
               [] ev.k = "spec" -> SpecWhy(ev)
               [] ev.k = "req" -> ReqWhy(ev)
TraceNext == StepWith(Judge)
TraceSpec == TraceInit /\ [][TraceNext]_l
=============================================================================
