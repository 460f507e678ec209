------------------------------- MODULE Files -------------------------------
(* Layers made from files: a set of file references (C15), a directory (C16), and an output file that is
   replaced only by a complete and different layer (C17).

   A time is [s, n]: seconds and nanoseconds. *)
EXTENDS Layers

RECURSIVE PartsLessFrom(_, _, _)
PartsLessFrom(p, q, i) ==
  IF i > Len(q) THEN FALSE ELSE IF i > Len(p) THEN TRUE
  ELSE IF p[i] = q[i] THEN PartsLessFrom(p, q, i + 1) ELSE StrLess(p[i], q[i])
\* Component-wise byte order: a directory is before its contents, and these before the next sibling.
PartsLess(p, q) == PartsLessFrom(p, q, 1)
Ordered(nodes) == SortSeq(nodes, LAMBDA x, y : PartsLess(x.c, y.c))

TimeLess(t, u) == t.s < u.s \/ (t.s = u.s /\ t.n < u.n)
Clamped(t, clamp) == IF TimeLess(clamp, t) THEN clamp ELSE t
\* Layers keep whole seconds.
StampOK(sec, t) == sec = t.s \/ (t.n > 0 /\ sec = t.s + 1)

\* ---- directories ----
\* A tree is a sequence of nodes [c, t, ino, link, mode, uid, gid, un, gn, s, n, data].
FirstWith(tree, i) == CHOOSE j \in 1..i : tree[j].ino = tree[i].ino /\ \A k \in 1..(j - 1) : tree[k].ino # tree[i].ino
\* o: [pre (components), pmode, puid, pgid, pun, pgn, cuid, cgid, cun, cgn, cs, cn]
PrefixEntry(o, k) == [c |-> SubSeq(o.pre, 1, k), t |-> "dir", link |-> "", mode |-> o.pmode, uid |-> o.puid, gid |-> o.pgid,
                      un |-> {o.pun}, gn |-> {o.pgn}, when |-> [s |-> o.cs, n |-> o.cn], data |-> ""]
FileEntry(tree, i, o) ==
  LET x == tree[i] f == FirstWith(tree, i) again == f < i IN
  [c |-> o.pre \o x.c, t |-> IF again THEN "lnk" ELSE x.t,
   link |-> IF again THEN Join(o.pre \o tree[f].c, "/") ELSE x.link,
   mode |-> x.mode,
   uid |-> IF o.cuid >= 0 THEN o.cuid ELSE x.uid, gid |-> IF o.cgid >= 0 THEN o.cgid ELSE x.gid,
   un |-> IF o.cun # "" THEN {o.cun} ELSE {x.un, ""}, gn |-> IF o.cgn # "" THEN {o.cgn} ELSE {x.gn, ""},
   when |-> Clamped([s |-> x.s, n |-> x.n], [s |-> o.cs, n |-> o.cn]),
   data |-> IF again THEN "" ELSE x.data]
DirEntries(nodes, o) ==
  LET tree == TLCEval(Ordered(nodes)) IN
  [k \in 1..Len(o.pre) |-> PrefixEntry(o, k)] \o [i \in 1..Len(tree) |-> FileEntry(tree, i, o)]

\* out: [name, t, link, mode, uid, gid, un, gn, s, data]
NameOK(out, w) == LET p == Join(w.c, "/") IN out.name = p \/ (w.t = "dir" /\ out.name = p \o "/")
EntryWhy(out, w) ==
  IF ~NameOK(out, w) THEN "name " \o out.name \o " instead of " \o Join(w.c, "/")
  ELSE IF out.t # w.t THEN out.name \o ": type " \o out.t \o " instead of " \o w.t
  ELSE IF out.link # w.link THEN out.name \o ": link to " \o out.link \o " instead of " \o w.link
  ELSE IF out.mode # w.mode THEN out.name \o ": mode " \o ToString(out.mode) \o " instead of " \o ToString(w.mode)
  ELSE IF out.uid # w.uid \/ out.gid # w.gid \/ out.un \notin w.un \/ out.gn \notin w.gn THEN out.name \o ": owner " \o ToString(<<out.uid, out.gid, out.un, out.gn>>) \o " instead of " \o ToString(<<w.uid, w.gid, w.un, w.gn>>)
  ELSE IF ~StampOK(out.s, w.when) THEN out.name \o ": time " \o ToString(out.s) \o " instead of " \o ToString(w.when)
  ELSE IF out.data # w.data THEN out.name \o ": wrong content"
  ELSE ""
RECURSIVE EntriesWhyFrom(_, _, _)
EntriesWhyFrom(outs, ws, i) ==
  IF i > Len(outs) /\ i > Len(ws) THEN ""
  ELSE IF i > Len(outs) THEN "missing " \o Join(ws[i].c, "/")
  ELSE IF i > Len(ws) THEN "unexpected " \o outs[i].name
  ELSE LET y == EntryWhy(outs[i], ws[i]) IN IF y # "" THEN y ELSE EntriesWhyFrom(outs, ws, i + 1)
\* "" or the first difference
EntriesWhy(outs, ws) == EntriesWhyFrom(outs, ws, 1)

\* ---- the output file of a build ----
\* State of the file: "none", "junk" (not a layer), or a layer, identified by what was built into it; each an id.
\* op: [k: "build", "fail" (the compiler fails), "full" (no layer can be written), "inject" (some system call fails), "kill"
\*      (the process dies at some point), and the outside "junk", "delete"]
\* What the file may be after the command returned with rc: same is whether the new layer equals the old one up to time.
MayBe(op, rc, old, new, same) ==
  CASE op = "fail" -> rc # 0 /\ new = old
    [] op = "full" -> IF same THEN rc = 0 /\ new = old ELSE rc # 0 /\ new = old
    [] op = "build" -> IF same THEN rc = 0 /\ new = old
                       ELSE IF old = "junk" THEN (rc # 0 /\ new = old) \/ (rc = 0 /\ new = "new")
                       ELSE rc = 0 /\ new = "new"
    [] op = "inject" -> IF rc = 0 THEN new = (IF same THEN old ELSE "new") ELSE new = old
    [] op = "kill" -> new = old \/ (new = "new" /\ ~same)
=============================================================================
