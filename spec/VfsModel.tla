------------------------------ MODULE VfsModel ------------------------------
(* The read-only file system over loaded layers: one abstract action per call, each a relation between
   the handle before, the observed result and the handle after.  Used by the design model and by the
   trace specification. *)
EXTENDS Layers

ValidName(name, c) == name # "" /\ (name = "." \/ \A i \in 1..Len(c) : c[i] \notin {"", ".", ".."}) /\ ~HasPrefix(name, "/")
NameComps(name, c) == IF name = "." THEN <<>> ELSE c

HiddenName(c) == \E i \in 1..Len(c) : HasPrefix(c[i], WhPrefix)

\* A handle: the path opened, the path of the file behind it, a position, and whether it was closed.
NewHandle(c, p) == [c |-> c, p |-> p, pos |-> 0, closed |-> FALSE]

\* Opening: "" or the kind of error.
OpenResult(fs, name, c) ==
  IF ~ValidName(name, c) THEN [e |-> "invalid", p |-> <<>>] ELSE Lookup(fs, NameComps(name, c), TRUE)
OpenAllowed(fs, name, c, err) ==
  LET r == OpenResult(fs, name, c) IN
  CASE r.e = "" -> err = ""
    [] r.e = "invalid" -> err = "invalid"
    [] r.e = "notexist" -> err = "notexist"
    [] r.e = "notdir" -> err \in {"notexist", "notdir"}
    [] OTHER -> err # ""

Kids(fs, p) == {q \in DOMAIN fs : Len(q) = Len(p) + 1 /\ IsPrefixEq(p, q)}
RECURSIVE SortNames(_)
SortNames(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE a \in S : \A b \in S \ {a} : StrLess(a, b) IN <<x>> \o SortNames(S \ {x})
Listing(fs, p) == SortNames({Base(q) : q \in Kids(fs, p)})
=============================================================================
