------------------------------ MODULE DirDesign ------------------------------
(* Every small directory tree, with hard links: a depth-first walk that remembers the files it has seen writes a
   layer that unpacks to that tree, every node once, parents first, links only backwards. *)
EXTENDS Files, Json
CONSTANTS MaxNodes, Prefix, EmitCases
VARIABLES tree, todo, out, phase
vars == <<tree, todo, out, phase>>

Names == {"a", "a-b", "b"}
Paths == {<<x>> : x \in Names} \cup {<<x, y>> : x \in Names, y \in {"a", "c"}}
UsrPrefix == <<"usr", "x">>
Init == tree = [p \in {} |-> 0] /\ todo = <<>> /\ out = <<>> /\ phase = "make"
ParentOK(p) == Len(p) = 1 \/ (Parent(p) \in DOMAIN tree /\ tree[Parent(p)].t = "dir")
NewIno == Cardinality({tree[p].ino : p \in DOMAIN tree}) + 1
Make == /\ phase = "make" /\ Cardinality(DOMAIN tree) < MaxNodes
        /\ \E p \in Paths \ DOMAIN tree : ParentOK(p) /\
             (\/ \E t \in {"dir", "reg", "sym"} : tree' = (p :> [t |-> t, ino |-> NewIno]) @@ tree
              \/ \E x \in DOMAIN tree : tree[x].t # "dir" /\ tree' = (p :> tree[x]) @@ tree)
        /\ UNCHANGED <<todo, out, phase>>
Kids(p) == {x \in DOMAIN tree : Len(x) = Len(p) + 1 /\ IsProperPrefix(p, x)}
RECURSIVE Sorted(_)
Sorted(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : \A z \in S \ {y} : PartsLess(y, z) IN <<x>> \o Sorted(S \ {x})
Start == phase = "make" /\ phase' = "walk" /\ todo' = Sorted(Kids(<<>>)) /\ UNCHANGED <<tree, out>>
Seen(ino) == {i \in 1..Len(out) : out[i].ino = ino}
Visit == /\ phase = "walk" /\ todo # <<>>
         /\ LET p == todo[1] x == tree[p] S == Seen(x.ino) IN
            /\ out' = Append(out, IF S = {} THEN [c |-> Prefix \o p, t |-> x.t, ino |-> x.ino, to |-> IF x.t = "sym" THEN <<"a">> ELSE <<>>, m |-> ToString(x.ino), lab |-> FALSE, ab |-> FALSE]
                                  ELSE LET f == out[CHOOSE i \in S : \A j \in S : i <= j] IN
                                       [c |-> Prefix \o p, t |-> "lnk", ino |-> x.ino, to |-> f.c, m |-> ToString(x.ino), lab |-> FALSE, ab |-> FALSE])
            /\ todo' = (IF x.t = "dir" THEN Sorted(Kids(p)) ELSE <<>>) \o Tail(todo)
         /\ UNCHANGED <<tree, phase>>
Next == Make \/ Start \/ Visit
Spec == Init /\ [][Next]_vars

\* the nodes as the declarative description wants them
NodeSeq == LET s == Sorted(DOMAIN tree) IN
  [i \in 1..Len(s) |-> [c |-> s[i], t |-> tree[s[i]].t, ino |-> tree[s[i]].ino, link |-> IF tree[s[i]].t = "sym" THEN "a" ELSE "",
     mode |-> 0, uid |-> 0, gid |-> 0, un |-> "", gn |-> "", s |-> 5, n |-> 0, data |-> ToString(tree[s[i]].ino)]]
Opts == [pre |-> Prefix, pmode |-> 0, puid |-> 0, pgid |-> 0, pun |-> "", pgn |-> "", cuid |-> -1, cgid |-> -1, cun |-> "", cgn |-> "", cs |-> 9, cn |-> 0]
Done == phase = "walk" /\ todo = <<>>
Mirror == Done =>
  LET un == Unpack(EmptyFS, <<out>>)
      want == DirEntries(NodeSeq, Opts) IN
  /\ un.ok
  /\ {p \in DOMAIN un.fs : IsProperPrefix(Prefix, p)} = {Prefix \o p : p \in DOMAIN tree}
  /\ \A p \in DOMAIN tree : un.fs[Prefix \o p].t = tree[p].t /\ un.fs[Prefix \o p].m = ToString(tree[p].ino)
  /\ Len(out) = Cardinality(DOMAIN tree)
  /\ \A i \in 1..Len(out) : LET w == want[Len(Prefix) + i] IN
        out[i].c = w.c /\ out[i].t = w.t /\ Join(out[i].to, "/") = w.link
Emit == EmitCases /\ phase = "walk" /\ out = <<>> => PrintT("CASE " \o ToJson([nodes |-> NodeSeq]))
=============================================================================
