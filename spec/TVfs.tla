-------------------------------- MODULE TVfs --------------------------------
(* Judges recorded sessions on a loaded file system: ev = [in: layers, metas: attributes by token,
   omit: loaded without content, err: the error of loading, log: the calls with their results]. *)
EXTENDS VfsModel, TraceBase

Meta(ev, fs, p) == ev.metas[fs[p].m]
Content(ev, fs, p) == IF fs[p].t = "reg" THEN Meta(ev, fs, p).data ELSE ""
Implied(fs, p) == fs[p].m = "?"

InfoOK(ev, fs, p, name, info) ==
  IF Implied(fs, p) THEN info.err = "missing"
  ELSE /\ info.err = "" /\ info.name = name /\ info.t = fs[p].t /\ info.isdir = (fs[p].t = "dir")
       /\ info.mode = Meta(ev, fs, p).mode /\ info.mtime = Meta(ev, fs, p).mtime
       /\ (fs[p].t = "reg" => info.size = Len(Meta(ev, fs, p).data))

LastName(c) == IF c = <<>> THEN "." ELSE c[Len(c)]

StatWhy(ev, fs, h, r) ==
  IF h.closed THEN <<>>     \* not specified
  ELSE Ck(InfoOK(ev, fs, h.p, LastName(h.c), r.info), "stat of " \o ToString(h.c) \o ": " \o ToString(r.info))

\* Reading: allowed results, and how far the position moves.
ReadWhy(ev, fs, h, r) ==
  LET data == Content(ev, fs, h.p) left == Len(data) - h.pos IN
  IF fs[h.p].t = "dir" THEN Ck(r.err \notin {"", "eof"} /\ r.k = 0, "read of a directory: " \o ToString(r))
  ELSE IF h.closed THEN Ck((r.err = "closed" \/ (ev.omit /\ r.err = "missing")) /\ r.k = 0, "read after close: " \o ToString(r))
  ELSE IF ev.omit /\ data # "" THEN Ck(r.err = "missing" /\ r.k = 0, "content that was not loaded was read: " \o ToString(r))
  ELSE IF left = 0 THEN Ck(r.k = 0 /\ (r.err = "eof" \/ (r.n = 0 /\ r.err = "")), "read at the end: " \o ToString(r))
  ELSE IF r.n = 0 THEN Ck(r.k = 0 /\ r.err = "", "empty read: " \o ToString(r))
  ELSE Ck(/\ r.k > 0 /\ r.k <= r.n /\ r.k <= left
          /\ r.data = SubSeq(data, h.pos + 1, h.pos + r.k)
          /\ (r.err = "" \/ (r.err = "eof" /\ r.k = left)), "read at " \o ToString(h.pos) \o " of " \o data \o ": " \o ToString(r))

\* Concurrent readers of one handle share its position: their pieces tile the rest of the content.
RECURSIVE Tiles(_, _)
Tiles(data, chunks) ==
  IF data = "" THEN chunks = <<>>
  ELSE \E i \in 1..Len(chunks) : HasPrefix(data, chunks[i]) /\
         Tiles(DropPrefix(data, chunks[i]), [j \in 1..Len(chunks) - 1 |-> IF j < i THEN chunks[j] ELSE chunks[j + 1]])
ConcWhy(ev, fs, h, r) ==
  IF fs[h.p].t = "dir" \/ ev.omit THEN <<>>
  ELSE Ck(Range(r.errs) = {"eof"} /\ Tiles(SubSeq(Content(ev, fs, h.p), h.pos + 1, Len(Content(ev, fs, h.p))), r.chunks),
          "concurrent reads: " \o ToString(r))

EntOK(ev, fs, p, name, e) ==
  LET q == Append(p, name) IN
  /\ e.name = name /\ e.t = fs[q].t /\ e.isdir = (fs[q].t = "dir")
  /\ InfoOK(ev, fs, q, name, e.info)
ListWhy(ev, fs, h, r) ==
  IF fs[h.p].t # "dir" THEN Ck(r.err \notin {"", "eof"} /\ r.ents = <<>>, "listing of a non-directory: " \o ToString(r))
  ELSE IF h.closed THEN Ck(r.err = "closed" /\ r.ents = <<>>, "listing after close: " \o ToString(r))
  ELSE LET names == Listing(fs, h.p) left == Len(names) - h.pos k == Len(r.ents) IN
    Ck(/\ IF r.n <= 0 THEN r.err = "" /\ k = left
          ELSE IF left = 0 THEN r.err = "eof" /\ k = 0
          ELSE r.err = "" /\ k > 0 /\ k <= r.n /\ k <= left
       /\ \A i \in 1..k : EntOK(ev, fs, h.p, names[h.pos + i], r.ents[i]),
       "listing of " \o ToString(h.p) \o " at " \o ToString(h.pos) \o ": " \o ToString(r))

CloseWhy(h, r) == Ck(r.err = (IF h.closed THEN "closed" ELSE ""), "close: " \o ToString(r))

\* One call: [H: the handles after it, why: the reasons it is not allowed].
Step(ev, fs, H, r) ==
  IF r.op = "open" THEN
    LET res == OpenResult(fs, r.name, r.c) IN
    [H |-> IF res.e = "" THEN (r.h :> NewHandle(NameComps(r.name, r.c), res.p)) @@ H ELSE [x \in DOMAIN H \ {r.h} |-> H[x]],
     why |-> Ck(OpenAllowed(fs, r.name, r.c, r.err), "open of " \o r.name \o " gave '" \o r.err \o "', expected '" \o res.e \o "'")]
  ELSE LET h == H[r.h] IN
    CASE r.op = "stat" -> [H |-> H, why |-> StatWhy(ev, fs, h, r)]
      [] r.op = "read" -> [H |-> [H EXCEPT ![r.h].pos = @ + r.k], why |-> ReadWhy(ev, fs, h, r)]
      [] r.op = "conc" -> [H |-> [H EXCEPT ![r.h].pos = Len(Content(ev, fs, h.p))], why |-> ConcWhy(ev, fs, h, r)]
      [] r.op = "readdir" -> [H |-> [H EXCEPT ![r.h].pos = @ + Len(r.ents)], why |-> ListWhy(ev, fs, h, r)]
      [] r.op = "close" -> [H |-> [H EXCEPT ![r.h].closed = TRUE], why |-> CloseWhy(h, r)]

\* Step through the session, stopping at the first call that is not allowed.
RECURSIVE Session(_, _, _, _)
Session(ev, fs, H, i) ==
  IF i > Len(ev.log) THEN <<>>
  ELSE IF ev.log[i].op # "open" /\ ev.log[i].h \notin DOMAIN H THEN <<"a call on a handle that should not exist: " \o ToString(ev.log[i])>>
  ELSE LET s == Step(ev, fs, H, ev.log[i]) IN
    IF s.why # <<>> THEN <<"call " \o ToString(i) \o ": " \o s.why[1]>> ELSE Session(ev, fs, s.H, i + 1)

\* sessions that ran at the same time and saw something else (each with handles of its own)
RECURSIVE Others(_, _, _)
Others(ev, fs, k) == IF k > Len(ev.par) THEN <<>> ELSE Session([ev EXCEPT !.log = ev.par[k]], fs, <<>>, 1) \o Others(ev, fs, k + 1)

EntryOK(e) == LET p == Clean(e.c) IN
  /\ p = <<>> => e.t = "dir"
  /\ \A k \in 1..Len(p) : HasPrefix(p[k], WhPrefix) => k = Len(p) /\ e.t = "reg"
Regular(Ls) == \A i \in 1..Len(Ls) : \A j \in 1..Len(Ls[i]) : EntryOK(Ls[i][j]) /\ ~Escapes(Ls[i][j])
\* hard links are only judged when to a file that is there (see TSquash)
HasLinks(Ls) == \E i \in 1..Len(Ls) : \E j \in 1..Len(Ls[i]) : Ls[i][j].t = "lnk"

JudgeSession(ev) ==
  IF ~Regular(ev.in) THEN <<>>
  ELSE LET u == Unpack(EmptyFS, ev.in) IN
  IF ~u.ok THEN IF HasLinks(ev.in) THEN <<>> ELSE Ck(ev.err # "", "the symlinks loop, but no error was reported")
  ELSE IF ev.err # "" THEN <<"unexpected error: " \o ev.err>>
  ELSE Session(ev, u.fs, <<>>, 1) \o Others(ev, u.fs, 1)

\* ---- adversarial stacks: whatever happens, it ends, and stays inside of the root ----
InnerDots(c) == \E i \in 2..Len(c) : c[i] = ".." /\ \E j \in 1..i - 1 : c[j] \notin {"..", ".", ""}
Plain(Ls) == \A i \in 1..Len(Ls) : \A j \in 1..Len(Ls[i]) : ~InnerDots(Ls[i][j].to)
JudgeFree(ev) ==
  LET esc == \E i \in 1..Len(ev.in) : \E j \in 1..Len(ev.in[i]) : Escapes(ev.in[i][j]) IN
     Ck(ev.sqerr # "unreadable", "unreadable output")
  \o Ck(\A i \in 1..Len(ev.sqnames) : ~Escapes(ev.sqnames[i]), "an entry outside of the image root in the output")
  \o Ck((ev.err = "") = (ev.sqerr = ""), "loading and squashing disagree: " \o ev.err \o " / " \o ev.sqerr)
  \o Ck(esc => ev.err # "", "an entry outside of the image root was accepted")
  \o (IF Plain(ev.in) /\ ~esc THEN JudgeSession(ev) ELSE <<>>)

Judge(ev) == IF ev.free THEN JudgeFree(ev) ELSE JudgeSession(ev)
TraceNext == StepWith(Judge)
TraceSpec == TraceInit /\ [][TraceNext]_l
=============================================================================
