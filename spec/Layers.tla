------------------------------- MODULE Layers -------------------------------
(* The OCI layer model: what a sequence of layers does to a file system.

   A path is a sequence of name components; the root is <<>>.  A file system is a function from
   paths to nodes; a node is a record
     t  : "dir", "reg", "sym", or another type name
     m  : a token standing for all attributes and the content ("?" : unspecified, for a directory
          that is only implied by the entries below it)
     to, ab : the components of a symlink's target and whether it is absolute.
   A layer entry is a record [c, ab, t, to, lab, m]: the raw components of its name, whether that is
   absolute, and the fields of the node it makes (for a hard link, t = "lnk" and to is the target). *)
EXTENDS Strs

IsProperPrefix(p, q) == Len(p) < Len(q) /\ SubSeq(q, 1, Len(p)) = p
IsPrefixEq(p, q) == Len(p) <= Len(q) /\ SubSeq(q, 1, Len(p)) = p
Parent(p) == SubSeq(p, 1, Len(p) - 1)
Base(p) == p[Len(p)]

\* Lexical cleaning of a raw component list.  esc: the name climbs above the root (or is absolute).
RECURSIVE CleanFrom(_, _, _)
CleanFrom(cs, i, acc) ==
  IF i > Len(cs) THEN acc
  ELSE IF cs[i] = "" \/ cs[i] = "." THEN CleanFrom(cs, i + 1, acc)
  ELSE IF cs[i] = ".."
       THEN IF acc = <<>> \/ acc[Len(acc)] = ".." THEN CleanFrom(cs, i + 1, Append(acc, ".."))
            ELSE CleanFrom(cs, i + 1, Parent(acc))
  ELSE CleanFrom(cs, i + 1, Append(acc, cs[i]))
Clean(cs) == CleanFrom(cs, 1, <<>>)
Escapes(e) == e.ab \/ (LET c == Clean(e.c) IN c # <<>> /\ c[1] = "..")

WhPrefix == ".wh."
Opaque == ".wh..wh..opq"
IsMarker(p) == p # <<>> /\ HasPrefix(Base(p), WhPrefix)

ImplDir == [t |-> "dir", m |-> "?", to |-> <<>>, ab |-> FALSE]
BadLink == [t |-> "badlink", m |-> "", to |-> <<>>, ab |-> FALSE]
EmptyFS == (<<>> :> ImplDir)

Restrict(f, S) == [x \in S |-> f[x]]
RemoveTree(fs, p) == Restrict(fs, {q \in DOMAIN fs : ~IsPrefixEq(p, q)})
RemoveBelow(fs, p) == Restrict(fs, {q \in DOMAIN fs : ~IsProperPrefix(p, q)})
Put(fs, p, n) == (p :> n) @@ fs

\* Walk down `todo` from the directory `cur`, following symlinks, and making every component a
\* directory (a missing one is implied, a non-directory is replaced).
MaxHops == 60
RECURSIVE WalkDir(_, _, _, _)
WalkDir(fs, cur, todo, hops) ==
  IF todo = <<>> THEN [ok |-> TRUE, fs |-> fs, p |-> cur]
  ELSE LET c == todo[1] rest == Tail(todo) IN
    IF c = "" \/ c = "." THEN WalkDir(fs, cur, rest, hops)
    ELSE IF c = ".." THEN WalkDir(fs, IF cur = <<>> THEN <<>> ELSE Parent(cur), rest, hops)
    ELSE LET q == Append(cur, c) IN
      IF q \notin DOMAIN fs THEN WalkDir(Put(fs, q, ImplDir), q, rest, hops)
      ELSE IF fs[q].t = "sym"
           THEN IF hops = 0 THEN [ok |-> FALSE, fs |-> fs, p |-> cur]
                ELSE WalkDir(fs, IF fs[q].ab THEN <<>> ELSE cur, fs[q].to \o rest, hops - 1)
      ELSE IF fs[q].t = "dir" THEN WalkDir(fs, q, rest, hops)
      ELSE WalkDir(Put(fs, q, ImplDir), q, rest, hops)

\* Look a path up (read-only): follow symlinks on the way, and the last component too if asked to.
RECURSIVE Look(_, _, _, _, _)
Look(fs, cur, todo, follow, hops) ==
  IF todo = <<>> THEN [e |-> "", p |-> cur]
  ELSE LET c == todo[1] rest == Tail(todo) IN
    IF c = "" \/ c = "." THEN Look(fs, cur, rest, follow, hops)
    ELSE IF c = ".." THEN Look(fs, IF cur = <<>> THEN <<>> ELSE Parent(cur), rest, follow, hops)
    ELSE IF fs[cur].t # "dir" THEN [e |-> "notdir", p |-> cur]
    ELSE LET q == Append(cur, c) IN
      IF q \notin DOMAIN fs THEN [e |-> "notexist", p |-> q]
      ELSE IF fs[q].t = "sym" /\ (follow \/ rest # <<>>)
           THEN IF hops = 0 THEN [e |-> "loop", p |-> q]
                ELSE Look(fs, IF fs[q].ab THEN <<>> ELSE cur, fs[q].to \o rest, follow, hops - 1)
      ELSE Look(fs, q, rest, follow, hops)
Lookup(fs, p, follow) == Look(fs, <<>>, p, follow, MaxHops)

\* One whiteout marker.
ApplyMarker(fs, p) ==
  LET w == WalkDir(fs, <<>>, Parent(p), MaxHops) IN
  IF ~w.ok THEN w
  ELSE IF Base(p) = Opaque THEN [w EXCEPT !.fs = RemoveBelow(w.fs, w.p)]
  ELSE [w EXCEPT !.fs = RemoveTree(w.fs, Append(w.p, DropPrefix(Base(p), WhPrefix)))]

\* One entry that is not a marker.
ApplyFile(fs, p, e) ==
  IF p = <<>> THEN [ok |-> e.t = "dir", fs |-> Put(fs, <<>>, [ImplDir EXCEPT !.m = e.m]), p |-> <<>>]
  ELSE LET w == WalkDir(fs, <<>>, Parent(p), MaxHops) IN
    IF ~w.ok THEN w
    ELSE LET q == Append(w.p, Base(p))
             \* a hard link is to an existing file other than what it replaces; the link then is that file
             lk == Lookup(w.fs, Clean(e.to), FALSE)
             tgt == lk.p
             goodlink == lk.e = "" /\ w.fs[tgt].t # "dir" /\ ~IsPrefixEq(q, tgt)
             node == IF e.t = "lnk"
                     THEN IF goodlink THEN w.fs[tgt] ELSE BadLink
                     ELSE [t |-> e.t, m |-> e.m, to |-> e.to, ab |-> e.lab]
         IN IF e.t = "lnk" /\ ~goodlink THEN [w EXCEPT !.ok = FALSE]
            ELSE IF e.t = "dir" /\ q \in DOMAIN w.fs /\ w.fs[q].t = "dir"
            THEN [w EXCEPT !.fs = Put(w.fs, q, node)]
            ELSE [w EXCEPT !.fs = Put(RemoveTree(w.fs, q), q, node)]

\* A layer: whiteouts first (they only concern lower layers), then the entries in order.
RECURSIVE ApplyMarkers(_, _, _)
ApplyMarkers(r, L, i) ==
  IF i > Len(L) \/ ~r.ok THEN r
  ELSE LET p == Clean(L[i].c) IN
    IF IsMarker(p) THEN ApplyMarkers(ApplyMarker(r.fs, p), L, i + 1) ELSE ApplyMarkers(r, L, i + 1)
RECURSIVE ApplyFiles(_, _, _)
ApplyFiles(r, L, i) ==
  IF i > Len(L) \/ ~r.ok THEN r
  ELSE LET p == Clean(L[i].c) IN
    IF IsMarker(p) THEN ApplyFiles(r, L, i + 1) ELSE ApplyFiles(ApplyFile(r.fs, p, L[i]), L, i + 1)
ApplyLayer(r, L) == ApplyFiles(ApplyMarkers(r, L, 1), L, 1)
RECURSIVE ApplyLayers(_, _, _)
ApplyLayers(r, Ls, i) == IF i > Len(Ls) \/ ~r.ok THEN r ELSE ApplyLayers(ApplyLayer(r, Ls[i]), Ls, i + 1)
\* The result of unpacking the layers Ls on the file system fs: [ok, fs, p].
Unpack(fs, Ls) == ApplyLayers([ok |-> TRUE, fs |-> fs, p |-> <<>>], Ls, 1)

\* want: the layers one by one; got: the squashed layer.  A merely implied directory has no attributes to agree on.
SameNode(want, got) == got.t = want.t /\ got.to = want.to /\ got.ab = want.ab /\ (want.m = "?" \/ got.m = want.m)
SameFS(want, got) == DOMAIN want = DOMAIN got /\ \A p \in DOMAIN want : SameNode(want[p], got[p])

\* ---- Base file systems to put below a set of layers ----
Stripped(p) == IF IsMarker(p) THEN (IF Base(p) = Opaque THEN Parent(p) ELSE Append(Parent(p), DropPrefix(Base(p), WhPrefix))) ELSE p
TouchedPaths(Ls) == UNION {{Stripped(Clean(Ls[i][j].c)) : j \in 1..Len(Ls[i])} : i \in 1..Len(Ls)}
                    \cup UNION {{Clean(Ls[i][j].to) : j \in {k \in 1..Len(Ls[i]) : Ls[i][k].t = "sym"}} : i \in 1..Len(Ls)}
Dirs(S) == {SubSeq(p, 1, k) : <<p, k>> \in {<<q, j>> \in S \X (0..20) : j <= Len(q)}}
NoDots(S) == {p \in S : ~ \E i \in 1..Len(p) : p[i] \in {"..", "", "."}}
BDir == [t |-> "dir", m |-> "b", to |-> <<>>, ab |-> FALSE]
BReg == [t |-> "reg", m |-> "b", to |-> <<>>, ab |-> FALSE]
\* Everything the layers mention exists below as a directory with one more file in it.
DeepBase(Ls) == LET D == Dirs(NoDots(TouchedPaths(Ls))) \cup {<<>>} IN
   [p \in D \cup {Append(d, "zz") : d \in D} |-> IF p \in D THEN BDir ELSE BReg]
\* Everything the layers mention exists below, the leaves as regular files.
FileBase(Ls) == LET D == Dirs(NoDots(TouchedPaths(Ls))) \cup {<<>>}
                    Leaf == {p \in D : p # <<>> /\ ~ \E q \in D : IsProperPrefix(p, q)} IN
   [p \in D |-> IF p \in Leaf THEN BReg ELSE BDir]
\* The first components exist below as regular files.
FlatBase(Ls) == LET D == {<<p[1]>> : p \in {q \in NoDots(TouchedPaths(Ls)) : q # <<>>}} IN
   [p \in D \cup {<<>>} |-> IF p = <<>> THEN BDir ELSE BReg]
StdBases(Ls) == {EmptyFS, DeepBase(Ls), FileBase(Ls), FlatBase(Ls)}
=============================================================================
