-------------------------------- MODULE Index --------------------------------
(* Package indexes: which file of a project is chosen (C12), and what is delivered of what a server answers (C14). *)
EXTENDS Tags

\* ---- choosing ----
\* A version among versions: the highest of the matching ones that are not excluded, or else of the matching ones.
TopOf(S) == {v \in S : \A w \in S : CmpVersion(w, v) <= 0}
Picks(cs, vs, Allowed(_)) ==
  LET M == {v \in vs : MatchSpec(cs, v)} A == {v \in M : Allowed(v)} IN IF A # {} THEN TopOf(A) ELSE TopOf(M)

\* The files a client for the interpreter py (<<>> or <<version>>) is offered: a requirement that does not parse is ignored.
ReqOK(req, py) == py = <<>> \/ req = "" \/ LET p == Parse345(req) IN ~p.ok \/ Match345(p.v, py[1])
\* A candidate is [i, ver, rank, build, yanked].
Candidates(files, py, inst) ==
  LET P == TLCEval([i \in 1..Len(files) |-> ParseFilename(files[i].text)])
      I == {i \in 1..Len(files) : P[i].ok /\ ReqOK(files[i].req, py)}
      J == {i \in I : Supports(inst, P[i].v.tag)} IN
  {[i |-> i, ver |-> P[i].v.ver, rank |-> Preference(inst, P[i].v.tag), build |-> P[i].v.build, yanked |-> files[i].yanked] : i \in J}
\* The candidates that may be selected (several only if they tie in everything).
Best(C, cs) ==
  LET M == {c \in C : MatchSpec(cs, c.ver)}
      gone(v) == \A c \in M : CmpVersion(c.ver, v) = 0 => c.yanked
      A == {c \in M : ~IsPreRelease(c.ver) /\ ~gone(c.ver)}
      P == IF A # {} THEN A ELSE M
      V == {c \in P : \A d \in P : CmpVersion(d.ver, c.ver) <= 0}
      U == IF \E c \in V : ~c.yanked THEN {c \in V : ~c.yanked} ELSE V
      T == {c \in U : \A d \in U : c.rank <= d.rank}
  IN {c \in T : \A d \in T : CmpBuild(d.build, c.build) <= 0}

\* ---- URLs ----
CutAt(s, c) == LET i == IndexOf(s, c) IN IF i = 0 THEN <<s, <<>>>> ELSE <<SubSeq(s, 1, i - 1), <<SubSeq(s, i + 1, Len(s))>>>>
\* [auth, path, q, frag]; auth "" if the reference has none; q and frag: <<>> or <<string>>
ParseRef(s) ==
  LET f == CutAt(s, "#") q == CutAt(f[1], "?") r == q[1]
      a == IF HasPrefix(r, "http://") THEN DropPrefix(r, "http://") ELSE IF HasPrefix(r, "//") THEN DropPrefix(r, "//") ELSE ""
      sl == IndexOf(a, "/") IN
  [auth |-> IF a = "" THEN "" ELSE IF sl = 0 THEN a ELSE SubSeq(a, 1, sl - 1),
   path |-> IF a = "" THEN r ELSE IF sl = 0 THEN "" ELSE SubSeq(a, sl, Len(a)), q |-> q[2], frag |-> f[2]]
RECURSIVE DotsFrom(_, _, _)
DotsFrom(segs, i, out) ==
  IF i > Len(segs) THEN out
  ELSE LET last == i = Len(segs) IN
       IF segs[i] = "." THEN DotsFrom(segs, i + 1, IF last THEN Append(out, "") ELSE out)
       ELSE IF segs[i] = ".." THEN DotsFrom(segs, i + 1, LET o == IF out = <<>> THEN out ELSE SubSeq(out, 1, Len(out) - 1) IN IF last THEN Append(o, "") ELSE o)
       ELSE DotsFrom(segs, i + 1, Append(out, segs[i]))
\* An absolute path without dot segments.
NoDots(p) == "/" \o Join(DotsFrom(Tail(Split(p, "/")), 1, <<>>), "/")
DirPart(p) == LET s == Split(p, "/") IN Join(SubSeq(s, 1, Len(s) - 1), "/") \o "/"
UrlStr(u) == "http://" \o u.auth \o u.path \o (IF u.q = <<>> THEN "" ELSE "?" \o u.q[1]) \o (IF u.frag = <<>> THEN "" ELSE "#" \o u.frag[1])
Resolve(base, ref) ==
  LET b == ParseRef(base) r == ParseRef(ref) IN
  UrlStr(IF r.auth # "" THEN [r EXCEPT !.path = NoDots(@)]
         ELSE IF r.path = "" THEN [auth |-> b.auth, path |-> b.path, q |-> IF r.q # <<>> THEN r.q ELSE b.q, frag |-> r.frag]
         ELSE [auth |-> b.auth, path |-> NoDots(IF HasPrefix(r.path, "/") THEN r.path ELSE DirPart(b.path) \o r.path), q |-> r.q, frag |-> r.frag])
NoFrag(url) == CutAt(url, "#")[1]

\* ---- fetching ----
\* A server is a sequence of routes [u: URL, st: status, loc: Location, whole: the whole body arrives, data: token,
\*   digs: seq of <<algorithm, digest>>, meta: <<>> or <<declared version>>, as: seq of anchors].
RouteAt(rs, url) == LET S == {i \in 1..Len(rs) : rs[i].u = NoFrag(url)} IN IF S = {} THEN 0 ELSE CHOOSE i \in S : TRUE
Redirects == {301, 302, 303, 307, 308}
MaxHops == 10
RECURSIVE Fetch(_, _, _)
\* [ok, st: status of the failure (0: none), url: where it came from, r: route]
Fetch(rs, url, hops) ==
  LET i == RouteAt(rs, url) IN
  IF i = 0 THEN [ok |-> FALSE, st |-> 404]
  ELSE IF rs[i].st \in Redirects /\ rs[i].loc # "" THEN (IF hops >= MaxHops THEN [ok |-> FALSE, st |-> 0] ELSE Fetch(rs, Resolve(url, rs[i].loc), hops + 1))
  ELSE IF ~rs[i].whole THEN [ok |-> FALSE, st |-> 0]
  ELSE IF rs[i].st # 200 THEN [ok |-> FALSE, st |-> rs[i].st]
  ELSE [ok |-> TRUE, url |-> NoFrag(url), r |-> i]
Known == {"md5", "sha1", "sha224", "sha256", "sha384", "sha512"}
FragPairs(url) == LET f == CutAt(url, "#")[2] IN IF f = <<>> THEN <<>> ELSE
  LET ps == Split(f[1], "&") IN [i \in 1..Len(ps) |-> LET kv == CutAt(ps[i], "=") IN <<kv[1], IF kv[2] = <<>> THEN "" ELSE kv[2][1]>>]
FragBad(url) == LET f == CutAt(url, "#")[2] IN f # <<>> /\ IndexOf(f[1], ";") # 0
DigestsOK(url, digs) == LET ps == FragPairs(url) IN \A i \in 1..Len(ps) : ps[i][1] \in Known => ps[i] \in Range(digs)
\* Getting a file: [ok, data]
Download(rs, url) ==
  LET f == Fetch(rs, url, 0) IN
  IF ~f.ok \/ FragBad(url) THEN [ok |-> FALSE] ELSE IF DigestsOK(url, rs[f.r].digs) THEN [ok |-> TRUE, data |-> rs[f.r].data] ELSE [ok |-> FALSE]
\* The declared version of the interface: "ok", "bad", or "odd" if it is not judged.
ApiOf(meta) == IF meta = <<>> \/ meta = <<"">> THEN "ok" ELSE LET p == ParseVersion(meta[1]) IN
  IF ~p.ok \/ p.v.epoch # "0" THEN "odd" ELSE IF NumCmp(p.v.rel[1], "1") <= 0 THEN "ok" ELSE "bad"
\* An anchor is [href: <<>> or <<reference>>, text, at: seq of <<name, value>>].
Links(page, url) == LET as == SelectSeq(page.as, LAMBDA a : a.href # <<>>) IN
  [i \in 1..Len(as) |-> [href |-> Resolve(url, as[i].href[1]), text |-> as[i].text, at |-> as[i].at]]
Attr(l, k) == LET S == {i \in 1..Len(l.at) : l.at[i][1] = k} IN IF S = {} THEN <<>> ELSE <<l.at[CHOOSE i \in S : TRUE][2]>>
SigUrl(url) == NoFrag(url) \o ".asc"
\* Getting a signature: "none", "err", or the token of the data
Signature(rs, l) ==
  LET g == Attr(l, "data-gpg-sig") f == Fetch(rs, SigUrl(l.href), 0) IN
  IF g = <<"false">> THEN "none" ELSE IF f.ok THEN "=" \o rs[f.r].data ELSE IF g # <<"true">> /\ f.st = 404 THEN "none" ELSE "err"

\* PEP 503: the normalized name of a project.
RECURSIVE NormFrom(_, _, _)
NormFrom(s, i, was) == IF i > Len(s) THEN "" ELSE IF Ch(s, i) \in Seps THEN (IF was THEN "" ELSE "-") \o NormFrom(s, i + 1, TRUE) ELSE ToLowerC(Ch(s, i)) \o NormFrom(s, i + 1, FALSE)
Normal(s) == NormFrom(s, 1, FALSE)
NameOK(s) == \A i \in 1..Len(s) : Ch(s, i) \in Letters \cup Digits \cup Seps
=============================================================================
