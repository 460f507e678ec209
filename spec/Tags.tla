-------------------------------- MODULE Tags --------------------------------
(* PEP 425 compatibility tags and PEP 427 wheel file names. A tag is <<python, abi, platform>>. *)
EXTENDS Pep440

Product(t) ==
  LET x == Split(t[1], ".") y == Split(t[2], ".") z == Split(t[3], ".")
      n == Len(y) * Len(z)
  IN [i \in 1..Len(x) * n |-> <<x[((i - 1) \div n) + 1], y[(((i - 1) % n) \div Len(z)) + 1], z[((i - 1) % Len(z)) + 1]>>]
ParseTag(s) == LET p == Split(s, "-") IN IF Len(p) = 3 THEN [ok |-> TRUE, v |-> p] ELSE [ok |-> FALSE]
TagStr(t) == Join(t, "-")
Den(t) == Range(Product(t))
Meets(S, T) == \E a \in Range(S) : \E b \in Range(T) : Den(a) \cap Den(b) # {}
Supports(inst, t) == Meets(inst, <<t>>)
\* the position of the earliest supported entry; one past the end if there is none
Preference(inst, t) ==
  LET I == {i \in 1..Len(inst) : Meets(<<inst[i]>>, <<t>>)} IN
  IF I = {} THEN Len(inst) + 1 ELSE CHOOSE i \in I : \A j \in I : i <= j

\* ---- build tags: <<>> or <<numeral, rest>> ----
ParseBuild(s) == LET e == DigEnd(s, 1) IN
  IF e = 1 THEN [ok |-> FALSE] ELSE [ok |-> TRUE, v |-> <<NumNorm(SubSeq(s, 1, e - 1)), SubSeq(s, e, Len(s))>>]
CmpStr(x, y) == IF x = y THEN 0 ELSE IF StrLess(x, y) THEN -1 ELSE 1
CmpBuild(x, y) == IF x = <<>> /\ y = <<>> THEN 0 ELSE IF x = <<>> THEN -1 ELSE IF y = <<>> THEN 1
                  ELSE FirstNonZero(<<NumCmp(x[1], y[1]), CmpStr(x[2], y[2])>>)

\* ---- file names ----
BadName == [ok |-> FALSE]
ParseFilename(s) ==
  IF ~HasSuffix(s, ".whl") THEN BadName
  ELSE LET p == Split(DropSuffix(s, ".whl"), "-")
           b == IF Len(p) = 6 THEN ParseBuild(p[3]) ELSE [ok |-> TRUE, v |-> <<>>]
       IN IF Len(p) \notin {5, 6} THEN BadName
          ELSE IF \E i \in 1..Len(p) : p[i] = "" THEN BadName
          ELSE IF ~b.ok THEN BadName
          ELSE LET v == ParseVersion(p[2]) IN
               IF ~v.ok THEN BadName
               ELSE [ok |-> TRUE, v |-> [dist |-> p[1], ver |-> v.v, build |-> b.v, tag |-> SubSeq(p, Len(p) - 2, Len(p))]]

RECURSIVE EscFrom(_, _, _)
EscFrom(s, i, was) == IF i > Len(s) THEN "" ELSE IF Ch(s, i) \in Seps THEN (IF was THEN "" ELSE "_") \o EscFrom(s, i + 1, TRUE) ELSE Ch(s, i) \o EscFrom(s, i + 1, FALSE)
EscapeDist(s) == EscFrom(s, 1, FALSE)
BuildStr(b) == b[1] \o b[2]
GenerateFilename(f) ==
  IF f.build # <<>> /\ IndexOf(f.build[2], "-") # 0 THEN BadName
  ELSE IF \E i \in 1..3 : IndexOf(f.tag[i], "-") # 0 THEN BadName
  ELSE [ok |-> TRUE, v |-> EscapeDist(f.dist) \o "-" \o VersionStr(f.ver) \o (IF f.build = <<>> THEN "" ELSE "-" \o BuildStr(f.build)) \o "-" \o TagStr(f.tag) \o ".whl"]
=============================================================================
