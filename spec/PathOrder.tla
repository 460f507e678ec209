------------------------------ MODULE PathOrder ------------------------------
\* Tree order: a directory before its contents, whiteout markers before their siblings, byte order.
EXTENDS Layers
SibLess(x, y) ==
  LET mx == HasPrefix(x, WhPrefix) my == HasPrefix(y, WhPrefix)
  IN IF mx # my THEN mx ELSE StrLess(x, y)
RECURSIVE PathLessFrom(_, _, _)
PathLessFrom(p, q, i) ==
  IF i > Len(q) THEN FALSE ELSE IF i > Len(p) THEN TRUE
  ELSE IF p[i] = q[i] THEN PathLessFrom(p, q, i + 1) ELSE SibLess(p[i], q[i])
PathLess(p, q) == PathLessFrom(p, q, 1)
RECURSIVE SortPaths(_)
SortPaths(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE p \in S : \A q \in S \ {p} : PathLess(p, q) IN <<x>> \o SortPaths(S \ {x})
=============================================================================
