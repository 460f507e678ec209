---------------------------- MODULE SquashDesign ----------------------------
(* The design of the squasher, shaped like the implementation: a tree of entries and whiteout markers
   that every layer is folded into (markers of the layer first, then its files), and that is written
   out at the end.  The invariant says that at any point writing the tree out and unpacking it on any
   base gives what unpacking the layers one by one gives. *)
EXTENDS PathOrder, Json

CONSTANTS MaxOps, KeepHist, Targets, EmitHist
VARIABLES vfs, seq, phase, hist

vars == <<vfs, seq, phase, hist>>

Names == {"a", "b"}
Paths == {<<x>> : x \in Names} \cup {<<x, y>> : x \in Names, y \in Names}
DirPaths == {<<>>} \cup {<<x>> : x \in Names}

None == [t |-> "none", m |-> "?", to |-> <<>>, ab |-> FALSE]
MarkerNode == [t |-> "reg", m |-> "marker", to |-> <<>>, ab |-> FALSE]

\* ---- the tree ----
\* Go down to a directory, creating what is missing; a non-directory on the way becomes a directory
\* that explicitly hides what a lower layer may have there.
RECURSIVE VWalk(_, _, _, _)
VWalk(v, cur, todo, hops) ==
  IF todo = <<>> THEN [ok |-> TRUE, v |-> v, p |-> cur]
  ELSE LET c == todo[1] rest == Tail(todo) IN
    IF c = ".." THEN VWalk(v, IF cur = <<>> THEN <<>> ELSE Parent(cur), rest, hops)
    ELSE LET q == Append(cur, c) IN
      IF q \notin DOMAIN v THEN VWalk(Put(v, q, None), q, rest, hops)
      ELSE IF v[q].t = "sym"
           THEN IF hops = 0 THEN [ok |-> FALSE, v |-> v, p |-> cur]
                ELSE VWalk(v, IF v[q].ab THEN <<>> ELSE cur, v[q].to \o rest, hops - 1)
      ELSE IF v[q].t \in {"none", "dir"} THEN VWalk(v, q, rest, hops)
      ELSE VWalk(Put(Put(v, q, None), Append(q, Opaque), MarkerNode), q, rest, hops)

VSetMarker(v, d, base) ==
  IF base = Opaque THEN Put(RemoveBelow(v, d), Append(d, base), MarkerNode)
  ELSE Put(RemoveTree(v, Append(d, DropPrefix(base, WhPrefix))), Append(d, base), MarkerNode)

VSetFile(v, q, n) ==
  LET wh == Append(Parent(q), WhPrefix \o Base(q))
      hidden == wh \in DOMAIN v
      wasFile == q \in DOMAIN v /\ v[q].t \notin {"none", "dir"}
      v1 == RemoveTree(v, wh)
  IN IF n.t # "dir" THEN Put(RemoveTree(v1, q), q, n)
     ELSE IF wasFile \/ hidden THEN Put(Put(v1, q, n), Append(q, Opaque), MarkerNode)
     ELSE Put(v1, q, n)

\* ---- writing it out: parents before children, markers before their siblings, byte order ----
VOut(v) == LET ps == SortPaths({p \in DOMAIN v : v[p].t # "none"}) IN
  [i \in 1..Len(ps) |-> [c |-> ps[i], ab |-> FALSE, t |-> v[ps[i]].t, to |-> v[ps[i]].to, lab |-> v[ps[i]].ab, m |-> v[ps[i]].m]]

\* ---- the bases ----
BD == [t |-> "dir", m |-> "b", to |-> <<>>, ab |-> FALSE]
BR == [t |-> "reg", m |-> "b", to |-> <<>>, ab |-> FALSE]
B2 == [p \in {<<>>, <<"a">>, <<"b">>} |-> IF p = <<>> THEN BD ELSE BR]
Bases == <<EmptyFS,
   [p \in {<<>>, <<"a">>, <<"b">>, <<"zz">>, <<"a", "zz">>, <<"a", "a">>, <<"a", "a", "zz">>, <<"b", "b">>} |->
        IF p \in {<<"zz">>, <<"a", "zz">>, <<"a", "a", "zz">>, <<"b", "b">>} THEN BR ELSE BD],
   B2>>

Entry(p, t, to, ab, m) == [c |-> p, ab |-> FALSE, t |-> t, to |-> to, lab |-> ab, m |-> m]

Init == /\ vfs = (<<>> :> None)
        /\ seq = [i \in 1..Len(Bases) |-> [ok |-> TRUE, fs |-> Bases[i], p |-> <<>>]]
        /\ phase = 0        \* 2*(layer-1) while its markers, 2*(layer-1)+1 while its files are read
        /\ hist = <<>>

Ops == hist  \* with KeepHist = FALSE only its length is kept, as a sequence of one constant
Log(e, k) == hist' = Append(hist, IF KeepHist THEN [l |-> k, e |-> e] ELSE 0)

\* the layer in which the next marker / file may occur
NextMarkerPhase(newLayer) == IF newLayer THEN 2 * (phase \div 2) + 2 ELSE 2 * (phase \div 2)

DoMarker(d, base) ==
  /\ Len(hist) < MaxOps
  /\ \E newLayer \in BOOLEAN :
       /\ newLayer => hist # <<>>
       /\ ~newLayer => phase % 2 = 0
       /\ phase' = NextMarkerPhase(newLayer)
       /\ LET w == VWalk(vfs, <<>>, d, MaxHops) IN
            /\ w.ok
            /\ vfs' = VSetMarker(w.v, w.p, base)
            /\ seq' = [i \in 1..Len(Bases) |-> ApplyMarker(seq[i].fs, Append(d, base))]
            /\ Log(Entry(Append(d, base), "reg", <<>>, FALSE, "marker"), phase' \div 2)

DoFile(p, e) ==
  /\ Len(hist) < MaxOps
  /\ \E newLayer \in BOOLEAN :
       /\ newLayer => hist # <<>>
       /\ phase' = NextMarkerPhase(newLayer) + 1
       /\ LET w == VWalk(vfs, <<>>, Parent(p), MaxHops) IN
            /\ w.ok
            /\ vfs' = VSetFile(w.v, Append(w.p, Base(p)), [t |-> e.t, m |-> e.m, to |-> e.to, ab |-> e.lab])
            /\ seq' = [i \in 1..Len(Bases) |-> ApplyFile(seq[i].fs, p, e)]
            /\ Log(e, phase' \div 2)

Next ==
  \/ \E d \in DirPaths : DoMarker(d, Opaque)
  \/ \E p \in Paths : DoMarker(Parent(p), WhPrefix \o Base(p))
  \/ \E p \in Paths : DoFile(p, Entry(p, "dir", <<>>, FALSE, "d"))
  \/ \E p \in Paths : DoFile(p, Entry(p, "reg", <<>>, FALSE, "r"))
  \/ \E p \in Paths, t \in Targets : DoFile(p, Entry(p, "sym", t.to, t.ab, "s"))

Spec == Init /\ [][Next]_vars

\* C01 on the design.
Equivalent == \A i \in 1..Len(Bases) :
   LET want == seq[i] got == Unpack(Bases[i], <<VOut(vfs)>>)
   IN want.ok => got.ok /\ SameFS(want.fs, got.fs)
\* C04 on the design: the walk only fails where unpacking fails.
NoSpuriousLoop == \A p \in Paths : VWalk(vfs, <<>>, p, MaxHops).ok = WalkDir(seq[1].fs, <<>>, p, MaxHops).ok

\* Behaviours for the conformance driver: print the history as a case at its full length.
Emit == IF EmitHist /\ Len(hist) = MaxOps THEN PrintT("CASE " \o ToJson(hist)) ELSE TRUE

RelTargets == {[to |-> <<"b">>, ab |-> FALSE]}
MoreTargets == {[to |-> <<"b">>, ab |-> FALSE], [to |-> <<"..", "b">>, ab |-> FALSE], [to |-> <<"a", "b">>, ab |-> TRUE]}
=============================================================================
