-------------------------------- MODULE TNet --------------------------------
(* Judges selections from package indexes, and what clients get from (bad) servers. *)
EXTENDS Index, TraceBase

RECURSIVE Reasons(_, _)
Reasons(Op(_), n) == IF n = 0 THEN <<>> ELSE Reasons(Op, n - 1) \o Op(n)

\* [files, py, inst, spec, runs: seq of [err, i]]
SelectWhy(ev) ==
  LET py == [i \in 1..Len(ev.py) |-> ParseVersion(ev.py[i]).v]
      B == TLCEval(Best(Candidates(ev.files, py, ev.inst), ParseSpec(ev.spec).v)) I == {c.i : c \in B} IN
  Reasons(LAMBDA n : LET r == ev.runs[n] IN
     IF I = {} THEN Ck(r.err, "selected " \o ToString(r.i) \o " although nothing is acceptable")
     ELSE IF r.err THEN <<"nothing selected instead of " \o ToString({ev.files[i].text : i \in I})>>
     ELSE Ck(r.i \in I, "selected " \o (IF r.i \in 1..Len(ev.files) THEN ToString(ev.files[r.i]) ELSE "something else") \o " instead of " \o ToString({ev.files[i] : i \in I})), Len(ev.runs))

\* [spec, vers, mode, allow, got]
PickWhy(ev) ==
  LET P == TLCEval([i \in 1..Len(ev.vers) |-> ParseVersion(ev.vers[i]).v])
      L == TLCEval({ParseVersion(ev.allow[i]).v : i \in 1..Len(ev.allow)})
      noPre(v) == IsPreRelease(v) => \E w \in L : CmpVersion(v, w) = 0
      noLocal(v) == v.local = <<>>
      allowed(v) == CASE ev.mode \in {"nil", "all", "none"} -> TRUE [] ev.mode = "pre" -> noPre(v) [] ev.mode = "multi" -> noPre(v) /\ noLocal(v)
      B == TLCEval(Picks(ParseSpec(ev.spec).v, Range(P), allowed)) IN
  IF B = {} THEN Ck(ev.got = <<>>, "picked " \o ToString(ev.got) \o " although nothing matches " \o ev.spec)
  ELSE IF ev.got = <<>> THEN <<"nothing picked from " \o ToString(ev.vers) \o " for " \o ev.spec>>
  ELSE Ck(\E v \in B : CmpVersion(v, ParseVersion(ev.got[1]).v) = 0, "picked " \o ev.got[1] \o " from " \o ToString(ev.vers) \o " for " \o ev.spec \o " mode " \o ev.mode)

\* ---- servers ----
\* Statuses 201 to 299, and digests in upper case, are not judged.
OddGet(rs, url) ==
  LET f == Fetch(rs, url, 0) ps == FragPairs(url) IN
  (~f.ok /\ f.st > 200 /\ f.st < 300) \/ \E i \in 1..Len(ps) : ps[i][2] # ToLower(ps[i][2])
PageOf(rs, url) == LET f == Fetch(rs, url, 0) IN
  IF ~f.ok THEN [ok |-> FALSE, odd |-> f.st > 200 /\ f.st < 300]
  ELSE LET a == ApiOf(rs[f.r].meta) IN IF a = "ok" THEN [ok |-> TRUE, odd |-> FALSE, links |-> Links(rs[f.r], f.url), as |-> rs[f.r].as] ELSE [ok |-> FALSE, odd |-> a = "odd"]
WithHref(ls) == SelectSeq(ls, LAMBDA w : w.href # "")
ListWhy(what, got, p, links) ==
  IF p.odd THEN <<>>
  ELSE IF ~p.ok THEN Ck(got.err, what \o ": no error")
  ELSE IF got.err THEN <<what \o ": " \o got.msg>>
  ELSE Ck(IsPerm(WithHref(got.links), links), what \o ": " \o ToString(WithHref(got.links)) \o " instead of " \o ToString(links))
NetWhy(ev) ==
  LET rs == ev.routes
      py == [i \in 1..Len(ev.py) |-> ParseVersion(ev.py[i]).v]
      start == ev.base \o Normal(ev.name) \o "/"
      page == IF NameOK(ev.name) THEN TLCEval(PageOf(rs, start)) ELSE [ok |-> FALSE, odd |-> FALSE]
      root == TLCEval(PageOf(rs, ev.base))
      req(w) == LET r == Attr(w, "data-requires-python") IN IF r = <<>> THEN "" ELSE r[1] IN
  ListWhy("files of " \o ev.name, ev.list, page, IF page.ok THEN SelectSeq(page.links, LAMBDA w : ReqOK(req(w), py)) ELSE <<>>)
  \o ListWhy("projects", ev.pkgs, root, IF root.ok THEN root.links ELSE <<>>)
  \o Reasons(LAMBDA i : LET p == PageOf(rs, ev.subs[i].href) IN ListWhy("files of " \o ev.subs[i].href, ev.subs[i], p, IF p.ok THEN p.links ELSE <<>>), Len(ev.subs))
  \o Reasons(LAMBDA i : LET g == ev.gets[i] d == Download(rs, g.href) IN
       IF OddGet(rs, g.href) THEN <<>>
       ELSE IF d.ok THEN Ck(~g.err /\ g.data = d.data, g.href \o ": not delivered, or something else") ELSE Ck(g.err, g.href \o ": delivered although it is missing, incomplete or not what the link says"), Len(ev.gets))
  \o Reasons(LAMBDA i : LET g == ev.sigs[i] s == Signature(rs, g) f == Fetch(rs, SigUrl(g.href), 0) IN
       IF IndexOf(g.href, "?") # 0 \/ (~f.ok /\ f.st > 200 /\ f.st < 300) THEN <<>> ELSE Ck(g.res = s, "signature of " \o g.href \o ": " \o g.res \o " instead of " \o s), Len(ev.sigs))
\* [routes, base, file, rc, data, any: something was written, msg]
GetWheelWhy(ev) ==
  LET rs == ev.routes p == ParseFilename(ev.file) page0 == IF p.ok THEN TLCEval(PageOf(rs, ev.base \o Normal(p.v.dist) \o "/")) ELSE [ok |-> FALSE, odd |-> FALSE]
      \* an anchor of that name without a reference is not judged
      page == page0 @@ [bare |-> page0.ok /\ \E i \in 1..Len(page0.as) : page0.as[i].text = ev.file /\ page0.as[i].href = <<>>]
      ls == IF page.ok THEN SelectSeq(page.links, LAMBDA w : w.text = ev.file) ELSE <<>>
      ds == [i \in 1..Len(ls) |-> Download(rs, ls[i].href)] IN
  IF page.odd \/ page.bare \/ \E i \in 1..Len(ls) : OddGet(rs, ls[i].href) THEN <<>>
  ELSE IF ~page.ok \/ ls = <<>> \/ \A i \in 1..Len(ds) : ~ds[i].ok THEN Ck(ev.rc = 1 /\ ~ev.any /\ ev.msg, "nothing to deliver, but exit status " \o ToString(ev.rc))
  ELSE IF \A i \in 1..Len(ds) : ds[i].ok THEN Ck(ev.rc = 0 /\ ev.data \in {ds[i].data : i \in 1..Len(ds)}, "exit status " \o ToString(ev.rc) \o ", or another content")
  ELSE Ck((ev.rc = 0 /\ \E i \in 1..Len(ds) : ds[i].ok /\ ev.data = ds[i].data) \/ (ev.rc = 1 /\ ~ev.any), "exit status " \o ToString(ev.rc))

Judge(ev) == CASE ev.k = "select" -> SelectWhy(ev) [] ev.k = "pick" -> PickWhy(ev) [] ev.k = "net" -> NetWhy(ev) [] ev.k = "getwheel" -> GetWheelWhy(ev)
TraceNext == StepWith(Judge)
TraceSpec == TraceInit /\ [][TraceNext]_l
=============================================================================
