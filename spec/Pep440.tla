------------------------------- MODULE Pep440 -------------------------------
(* PEP 440 versions and specifiers: the grammar of spellings, the canonical spelling, the order, the
   meaning of a specifier.  A version is
     [epoch: numeral, rel: <<numeral..>>, pre: <<>> or <<letter, numeral>>, post: <<>> or <<numeral>>,
      dev: <<>> or <<numeral>>, local: <<segment..>>]
   with canonical decimal numerals (as strings, so of any size). *)
EXTENDS Strs

Space == {" ", "\t", "\n", "\r", "\f"}
Seps == {"-", "_", "."}

\* ---- parsing.  Each piece maps a position to the ways it can match there, in order of preference; a
\*      way is [p: the position after it, v: what it spells].  s is in lower case.
RECURSIVE DigEnd(_, _)
DigEnd(s, i) == IF i <= Len(s) /\ Ch(s, i) \in Digits THEN DigEnd(s, i + 1) ELSE i
\* greedy digits; backtracking into a shorter run never helps, as no piece that follows starts with a digit
Digs(s, i) == LET e == DigEnd(s, i) IN IF e = i THEN <<>> ELSE <<[p |-> e, v |-> NumNorm(SubSeq(s, i, e - 1))]>>
At(s, i, t) == i + Len(t) - 1 <= Len(s) /\ SubSeq(s, i, i + Len(t) - 1) = t
OptSep(s, i) == IF i <= Len(s) /\ Ch(s, i) \in Seps THEN <<i + 1, i>> ELSE <<i>>

RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE ss[1] \o Flat(Tail(ss))

\* [sep] letters [sep] [number]
LetterNumber(s, i, letters) ==
  LET starts == OptSep(s, i)
      withLetter == TLCEval(Flat([a \in 1..Len(starts) |->
         LET L == SelectSeq(letters, LAMBDA t : At(s, starts[a], t)) IN [b \in 1..Len(L) |-> [p |-> starts[a] + Len(L[b]), v |-> L[b]]]]))
      withNumber(w) == LET seps == OptSep(s, w.p) IN
         Flat([a \in 1..Len(seps) |-> LET d == Digs(s, seps[a]) IN
            [b \in 1..Len(d) |-> [p |-> d[b].p, v |-> <<w.v, d[b].v>>]] \o <<[p |-> seps[a], v |-> <<w.v, "0">>]>>])
  IN Flat([a \in 1..Len(withLetter) |-> withNumber(withLetter[a])])

PreLetters == <<"a", "b", "c", "rc", "alpha", "beta", "pre", "preview">>
PreCanon(l) == CASE l \in {"a", "alpha"} -> "a" [] l \in {"b", "beta"} -> "b" [] OTHER -> "rc"
PreWays(s, i) == LET w == TLCEval(LetterNumber(s, i, PreLetters)) IN [a \in 1..Len(w) |-> [p |-> w[a].p, v |-> <<PreCanon(w[a].v[1]), w[a].v[2]>>]]
PostWays(s, i) ==
  LET dash == IF i <= Len(s) /\ Ch(s, i) = "-" THEN Digs(s, i + 1) ELSE <<>>
      w == TLCEval(LetterNumber(s, i, <<"post", "rev", "r">>))
  IN [a \in 1..Len(dash) |-> [p |-> dash[a].p, v |-> <<dash[a].v>>]] \o [a \in 1..Len(w) |-> [p |-> w[a].p, v |-> <<w[a].v[2]>>]]
DevWays(s, i) == LET w == TLCEval(LetterNumber(s, i, <<"dev">>)) IN [a \in 1..Len(w) |-> [p |-> w[a].p, v |-> <<w[a].v[2]>>]]
Opt(ways, i) == ways \o <<[p |-> i, v |-> <<>>]>>

\* The end of the line: an optional local label and space.
LocalEnd(s, i) == \* "none", or the label's segments
  LET rest == RTrim(SubSeq(s, i, Len(s)), Space) IN
  IF rest = "" THEN [ok |-> TRUE, v |-> <<>>]
  ELSE IF Ch(rest, 1) # "+" THEN [ok |-> FALSE, v |-> <<>>]
  ELSE LET body == SubSeq(rest, 2, Len(rest))
           dots == Cat([k \in 1..Len(body) |-> IF Ch(body, k) \in Seps THEN "." ELSE Ch(body, k)])
           segs == Split(dots, ".")
       IN IF \A k \in 1..Len(segs) : segs[k] # "" /\ \A j \in 1..Len(segs[k]) : Ch(segs[k], j) \in Lowers \cup Digits
          THEN [ok |-> TRUE, v |-> [k \in 1..Len(segs) |-> IF AllDigits(segs[k]) THEN NumNorm(segs[k]) ELSE segs[k]]]
          ELSE [ok |-> FALSE, v |-> <<>>]

\* release: numeral ("." numeral)*; every way to stop, longest first
RECURSIVE RelWays(_, _, _)
RelWays(s, i, acc) ==
  LET d == Digs(s, i) IN
  IF d = <<>> THEN <<>>
  ELSE LET me == Append(acc, d[1].v)
           more == IF d[1].p <= Len(s) /\ Ch(s, d[1].p) = "." THEN RelWays(s, d[1].p + 1, me) ELSE <<>>
       IN more \o <<[p |-> d[1].p, v |-> me]>>

NoVersion == [ok |-> FALSE]
\* First way through the tail that reaches the end.
RECURSIVE FirstOK(_)
FirstOK(rs) == IF rs = <<>> THEN NoVersion ELSE IF rs[1].ok THEN rs[1] ELSE FirstOK(Tail(rs))
ParseDev(s, i, acc) ==
  LET ws == TLCEval(Opt(DevWays(s, i), i)) IN
  FirstOK([a \in 1..Len(ws) |-> LET le == LocalEnd(s, ws[a].p) IN
     IF le.ok THEN [ok |-> TRUE, v |-> [acc EXCEPT !.dev = ws[a].v, !.local = le.v]] ELSE NoVersion])
ParsePost(s, i, acc) == LET ws == TLCEval(Opt(PostWays(s, i), i)) IN FirstOK([a \in 1..Len(ws) |-> ParseDev(s, ws[a].p, [acc EXCEPT !.post = ws[a].v])])
ParsePre(s, i, acc) == LET ws == TLCEval(Opt(PreWays(s, i), i)) IN FirstOK([a \in 1..Len(ws) |-> ParsePost(s, ws[a].p, [acc EXCEPT !.pre = ws[a].v])])
ParseRel(s, i, acc) == LET ws == TLCEval(RelWays(s, i, <<>>)) IN FirstOK([a \in 1..Len(ws) |-> ParsePre(s, ws[a].p, [acc EXCEPT !.rel = ws[a].v])])

Empty440 == [epoch |-> "0", rel |-> <<>>, pre |-> <<>>, post |-> <<>>, dev |-> <<>>, local |-> <<>>]
ParseVersion(str) ==
  LET s == ToLower(LTrim(str, Space))
      i == IF s # "" /\ Ch(s, 1) = "v" THEN 2 ELSE 1
      e == Digs(s, i)
  IN IF e # <<>> /\ At(s, e[1].p, "!") THEN ParseRel(s, e[1].p + 1, [Empty440 EXCEPT !.epoch = e[1].v])
     ELSE ParseRel(s, i, Empty440)

\* ---- canonical spelling ----
PublicStr(v) ==
  (IF v.epoch = "0" THEN "" ELSE v.epoch \o "!") \o Join(v.rel, ".")
  \o (IF v.pre = <<>> THEN "" ELSE v.pre[1] \o v.pre[2])
  \o (IF v.post = <<>> THEN "" ELSE ".post" \o v.post[1])
  \o (IF v.dev = <<>> THEN "" ELSE ".dev" \o v.dev[1])
VersionStr(v) == PublicStr(v) \o (IF v.local = <<>> THEN "" ELSE "+" \o Join(v.local, "."))

\* ---- order ----
RelAt(v, i) == IF i <= Len(v.rel) THEN v.rel[i] ELSE "0"
RECURSIVE CmpRelFrom(_, _, _)
CmpRelFrom(a, b, i) ==
  IF i > Len(a.rel) /\ i > Len(b.rel) THEN 0
  ELSE LET d == NumCmp(RelAt(a, i), RelAt(b, i)) IN IF d # 0 THEN d ELSE CmpRelFrom(a, b, i + 1)
CmpInt(x, y) == IF x < y THEN -1 ELSE IF x > y THEN 1 ELSE 0
\* Within a release: development releases of it, then a, b, rc, final, post; and within each of those its own
\* development releases come first.
Phase(v) == IF v.pre # <<>> THEN (CASE v.pre[1] = "a" -> 1 [] v.pre[1] = "b" -> 2 [] OTHER -> 3)
            ELSE IF v.post = <<>> /\ v.dev # <<>> THEN 0 ELSE 4
CmpOptNum(a, b, missing) == \* missing: -1 if absent sorts first, 1 if last
  IF a = <<>> /\ b = <<>> THEN 0
  ELSE IF a = <<>> THEN missing ELSE IF b = <<>> THEN -missing ELSE NumCmp(a[1], b[1])
First(s) == IF s = <<>> THEN 0 ELSE s[1]
RECURSIVE FirstNonZero(_)
FirstNonZero(s) == IF s = <<>> THEN 0 ELSE IF s[1] # 0 THEN s[1] ELSE FirstNonZero(Tail(s))
CmpPublic(a, b) == FirstNonZero(<<
  NumCmp(a.epoch, b.epoch), CmpRelFrom(a, b, 1), CmpInt(Phase(a), Phase(b)),
  IF a.pre # <<>> /\ b.pre # <<>> THEN NumCmp(a.pre[2], b.pre[2]) ELSE 0,
  CmpOptNum(a.post, b.post, -1), CmpOptNum(a.dev, b.dev, 1)>>)
CmpSeg(x, y) == IF AllDigits(x) /\ AllDigits(y) THEN NumCmp(x, y)
                ELSE IF AllDigits(x) THEN 1 ELSE IF AllDigits(y) THEN -1
                ELSE IF x = y THEN 0 ELSE IF StrLess(x, y) THEN -1 ELSE 1
RECURSIVE CmpLocalFrom(_, _, _)
CmpLocalFrom(a, b, i) ==
  IF i > Len(a) /\ i > Len(b) THEN 0 ELSE IF i > Len(a) THEN -1 ELSE IF i > Len(b) THEN 1
  ELSE LET d == CmpSeg(a[i], b[i]) IN IF d # 0 THEN d ELSE CmpLocalFrom(a, b, i + 1)
CmpVersion(a, b) == FirstNonZero(<<CmpPublic(a, b), CmpLocalFrom(a.local, b.local, 1)>>)

IsPreRelease(v) == v.pre # <<>> \/ v.dev # <<>>
IsFinal(v) == v.pre = <<>> /\ v.post = <<>> /\ v.dev = <<>> /\ v.local = <<>>

\* ---- specifiers ----
Ops == <<"~=", "===", "==", "!=", "<=", ">=", "<", ">">>
RECURSIVE OpOf(_, _)
OpOf(s, i) == IF i > Len(Ops) THEN "" ELSE IF HasPrefix(s, Ops[i]) THEN Ops[i] ELSE OpOf(s, i + 1)
BadClause == [ok |-> FALSE]
ParseClause(str) ==
  LET s == Trim(str, Space) op == OpOf(s, 1) rest == SubSeq(s, Len(op) + 1, Len(s))
      star == op \in {"==", "!="} /\ HasSuffix(rest, ".*")
      p == ParseVersion(IF star THEN DropSuffix(rest, ".*") ELSE rest)
  IN IF op \in {"", "==="} THEN BadClause
     ELSE IF ~p.ok THEN BadClause
     ELSE IF op = "~=" /\ Len(p.v.rel) < 2 THEN BadClause
     ELSE IF p.v.local # <<>> /\ (op \notin {"==", "!="} \/ star) THEN BadClause
     ELSE IF p.v.dev # <<>> /\ star THEN BadClause
     ELSE [ok |-> TRUE, v |-> [op |-> op, star |-> star, ver |-> p.v]]
ParseSpec(str) ==
  LET parts == SelectSeq(Split(str, ","), LAMBDA t : Trim(t, Space) # "")
      cs == [i \in 1..Len(parts) |-> ParseClause(parts[i])]
  IN IF \A i \in 1..Len(cs) : cs[i].ok THEN [ok |-> TRUE, v |-> [i \in 1..Len(cs) |-> cs[i].v]] ELSE [ok |-> FALSE]
ClauseStr(c) == c.op \o VersionStr(c.ver) \o (IF c.star THEN ".*" ELSE "")
SpecStr(cs) == Join([i \in 1..Len(cs) |-> ClauseStr(cs[i])], ",")

\* v starts with the (epoch and) release p, zero padded if need be; with a pre- or post-release in p, it must
\* be (a development or post-release of) that one.
StartsWith(p, v) ==
  /\ NumCmp(p.epoch, v.epoch) = 0
  /\ IF p.pre = <<>> /\ p.post = <<>> THEN \A i \in 1..Len(p.rel) : NumCmp(p.rel[i], RelAt(v, i)) = 0
     ELSE /\ CmpRelFrom(p, v, 1) = 0
          /\ p.pre = v.pre
          /\ (p.post # <<>> => p.post = v.post)
Public(v) == [v EXCEPT !.local = <<>>]
PostOf(p, v) == p.post = <<>> /\ p.dev = <<>> /\ v.post # <<>> /\ CmpPublic(p, [v EXCEPT !.post = <<>>, !.dev = <<>>]) = 0
MatchClause(c, v) ==
  CASE c.op = "==" -> IF c.star THEN StartsWith(c.ver, v) ELSE IF c.ver.local = <<>> THEN CmpPublic(c.ver, v) = 0 ELSE CmpVersion(c.ver, v) = 0
    [] c.op = "!=" -> IF c.star THEN ~StartsWith(c.ver, v) ELSE IF c.ver.local = <<>> THEN CmpPublic(c.ver, v) # 0 ELSE CmpVersion(c.ver, v) # 0
    [] c.op = "<=" -> CmpPublic(v, c.ver) <= 0
    [] c.op = ">=" -> CmpPublic(v, c.ver) >= 0
    [] c.op = "<" -> CmpPublic(v, c.ver) < 0
    [] c.op = ">" -> CmpPublic(v, c.ver) > 0 /\ ~PostOf(c.ver, v)
    [] c.op = "~=" -> /\ CmpPublic(v, c.ver) >= 0
                      /\ StartsWith([Empty440 EXCEPT !.epoch = c.ver.epoch, !.rel = SubSeq(c.ver.rel, 1, Len(c.ver.rel) - 1)], v)
MatchSpec(cs, v) == \A i \in 1..Len(cs) : MatchClause(cs[i], v)

\* ---- PEP 345 (Requires-Python) ----
Ops345 == <<"<=", ">=", "==", "!=", "<", ">">>
RECURSIVE Op345Of(_, _)
Op345Of(s, i) == IF i > Len(Ops345) THEN "" ELSE IF HasPrefix(s, Ops345[i]) THEN Ops345[i] ELSE Op345Of(s, i + 1)
Parse345Clause(str) ==
  LET s == Trim(str, Space) op == Op345Of(s, 1) p == ParseVersion(SubSeq(s, Len(op) + 1, Len(s))) IN
  IF p.ok THEN [ok |-> TRUE, v |-> [op |-> IF op = "" THEN "==" ELSE op, ver |-> p.v]] ELSE BadClause
Parse345(str) ==
  LET parts == SelectSeq(Split(str, ","), LAMBDA t : t # "")
      cs == [i \in 1..Len(parts) |-> Parse345Clause(parts[i])]
  IN IF \A i \in 1..Len(cs) : cs[i].ok THEN [ok |-> TRUE, v |-> [i \in 1..Len(cs) |-> cs[i].v]] ELSE [ok |-> FALSE]
Exact345(p) == p.local # <<>> \/ p.dev # <<>>
\* the series of p, except for the pre-, post- and development releases that p does not itself name
Eq345(p, v) ==
  /\ IF Exact345(p) THEN (IF p.local = <<>> THEN CmpPublic(p, v) = 0 ELSE CmpVersion(p, v) = 0) ELSE StartsWith(p, v)
  /\ p.dev = <<>> => /\ v.dev = <<>>
                     /\ p.post = <<>> => /\ v.post = <<>>
                                         /\ p.pre = <<>> => v.pre = <<>>
Match345Clause(c, v) ==
  CASE c.op = "==" -> Eq345(c.ver, v)
    [] c.op = "!=" -> ~Eq345(c.ver, v)
    [] c.op = "<" -> CmpVersion(v, c.ver) < 0 /\ (~Exact345(c.ver) => ~StartsWith(c.ver, v))
    [] c.op = "<=" -> CmpVersion(v, c.ver) <= 0
    [] c.op = ">" -> CmpVersion(v, c.ver) > 0
    [] c.op = ">=" -> CmpVersion(v, c.ver) >= 0
Match345(cs, v) == \A i \in 1..Len(cs) : Match345Clause(cs[i], v)
\* The version of an interpreter that says it is <<major, minor, micro, level, serial>>.
InterpVersion(py) ==
  LET rel == py[1] \o "." \o py[2] \o "." \o py[3] IN
  CASE py[4] = "final" -> ParseVersion(rel)
    [] py[4] = "alpha" -> ParseVersion(rel \o "a" \o py[5])
    [] py[4] = "beta" -> ParseVersion(rel \o "b" \o py[5])
    [] py[4] = "candidate" -> ParseVersion(rel \o "rc" \o py[5])
    [] OTHER -> [ok |-> FALSE]
=============================================================================
