------------------------------ MODULE VfsDesign ------------------------------
(* The life of the handles of a loaded file system: all histories of calls on two handles over a fixed
   small tree.  Checks that reading delivers the content exactly once and listing every entry exactly
   once, and prints the histories as cases for the conformance driver. *)
EXTENDS VfsModel, Json
CONSTANTS MaxOps, EmitHist
VARIABLES H, got, hist
vars == <<H, got, hist>>

N(t, m, to) == [t |-> t, m |-> m, to |-> to, ab |-> FALSE]
Tree == (<<>> :> N("dir", "r", <<>>)) @@ (<<"d">> :> N("dir", "d", <<>>)) @@ (<<"d", "x">> :> N("reg", "x", <<>>))
        @@ (<<"d", "y">> :> N("reg", "y", <<>>)) @@ (<<"d", "z">> :> N("sym", "z", <<"x">>)) @@ (<<"f">> :> N("reg", "f", <<>>))
        @@ (<<"s">> :> N("sym", "s", <<"d">>))
Data == [f |-> "abc", x |-> "", y |-> "q"]
ContentOf(p) == IF Tree[p].t = "reg" THEN Data[Tree[p].m] ELSE ""
Names == {<<"f">>, <<"d">>, <<"s">>, <<"d", "z">>, <<"s", "y">>, <<"nope">>, <<"f", "x">>}

Init == H = <<>> /\ got = <<>> /\ hist = <<>>
Log(op) == hist' = Append(hist, op)
Op(o, h, c, n) == [op |-> o, h |-> h, name |-> Join(c, "/"), n |-> n]

Open(h, c) ==
  LET r == Lookup(Tree, c, TRUE) IN
  /\ Log(Op("open", h, c, 0))
  /\ IF r.e = "" THEN H' = (h :> NewHandle(c, r.p)) @@ H /\ got' = (h :> <<>>) @@ got
     ELSE H' = [x \in DOMAIN H \ {h} |-> H[x]] /\ got' = [x \in DOMAIN got \ {h} |-> got[x]]
Min(a, b) == IF a < b THEN a ELSE b
Read(h, n) ==
  /\ h \in DOMAIN H
  /\ Log(Op("read", h, <<>>, n))
  /\ IF H[h].closed \/ Tree[H[h].p].t = "dir" THEN UNCHANGED <<H, got>>
     ELSE LET d == ContentOf(H[h].p) k == Min(n, Len(d) - H[h].pos) IN
          /\ H' = [H EXCEPT ![h].pos = @ + k]
          /\ got' = [got EXCEPT ![h] = @ \o [i \in 1..k |-> Ch(d, H[h].pos + i)]]
ReadDir(h, n) ==
  /\ h \in DOMAIN H
  /\ Log(Op("readdir", h, <<>>, n))
  /\ IF H[h].closed \/ Tree[H[h].p].t # "dir" THEN UNCHANGED <<H, got>>
     ELSE LET d == Listing(Tree, H[h].p) left == Len(d) - H[h].pos k == IF n <= 0 THEN left ELSE Min(n, left) IN
          /\ H' = [H EXCEPT ![h].pos = @ + k]
          /\ got' = [got EXCEPT ![h] = @ \o SubSeq(d, H[h].pos + 1, H[h].pos + k)]
Stat(h) == h \in DOMAIN H /\ Log(Op("stat", h, <<>>, 0)) /\ UNCHANGED <<H, got>>
Close(h) == h \in DOMAIN H /\ Log(Op("close", h, <<>>, 0)) /\ H' = [H EXCEPT ![h].closed = TRUE] /\ UNCHANGED got

Next == /\ Len(hist) < MaxOps
        /\ \/ \E h \in {0, 1}, c \in Names : (h = 0 \/ hist # <<>>) /\ Open(h, c)
           \/ \E h \in {0, 1}, n \in {0, 1, 2} : Read(h, n)
           \/ \E h \in {0, 1}, n \in {-1, 1, 2} : ReadDir(h, n)
           \/ \E h \in {0, 1} : Stat(h) \/ Close(h)
Spec == Init /\ [][Next]_vars

ExactlyOnce == \A h \in DOMAIN H :
  LET p == H[h].p whole == IF Tree[p].t = "dir" THEN Listing(Tree, p) ELSE Chars(ContentOf(p)) IN
  got[h] = SubSeq(whole, 1, H[h].pos) /\ H[h].pos <= Len(whole)
Isolated == [][\A h \in DOMAIN H \cap DOMAIN H' : hist'[Len(hist')].h # h => H'[h] = H[h] /\ got'[h] = got[h]]_vars
Emit == IF EmitHist /\ Len(hist) = MaxOps THEN PrintT("CASE " \o ToJson(hist)) ELSE TRUE
=============================================================================
