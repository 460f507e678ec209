-------------------------------- MODULE Strs --------------------------------
(* Strings as TLC sees them: Len, SubSeq and \o work on strings; everything else is built here. *)
EXTENDS Integers, Sequences, FiniteSets, TLC

\* The printable ASCII characters in byte order.
Ascii == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"

Ch(s, i) == SubSeq(s, i, i)

\* Code[c]: the byte value of a printable character.
Code == TLCEval([c \in {Ch(Ascii, i) : i \in 1..Len(Ascii)} |-> 31 + (CHOOSE i \in 1..Len(Ascii) : Ch(Ascii, i) = c)])
CodeOf(c) == IF c \in DOMAIN Code THEN Code[c] ELSE CASE c = "\t" -> 9 [] c = "\n" -> 10 [] c = "\f" -> 12 [] c = "\r" -> 13 [] OTHER -> 127

Digits == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
Lowers == {Ch("abcdefghijklmnopqrstuvwxyz", i) : i \in 1..26}
Uppers == {Ch("ABCDEFGHIJKLMNOPQRSTUVWXYZ", i) : i \in 1..26}
Letters == Lowers \cup Uppers
LowerOf == TLCEval([c \in Uppers |-> Ch(Ascii, Code[c] - 31 + 32)])
ToLowerC(c) == IF c \in Uppers THEN LowerOf[c] ELSE c

Chars(s) == [i \in 1..Len(s) |-> Ch(s, i)]

RECURSIVE CatFrom(_, _, _)
CatFrom(cs, i, j) == IF i > j THEN ""
                     ELSE IF i = j THEN cs[i]
                     ELSE LET m == (i + j) \div 2 IN CatFrom(cs, i, m) \o CatFrom(cs, m + 1, j)
\* The concatenation of a sequence of strings.
Cat(cs) == CatFrom(cs, 1, Len(cs))

ToLower(s) == Cat([i \in 1..Len(s) |-> ToLowerC(Ch(s, i))])

HasPrefix(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
HasSuffix(s, p) == Len(s) >= Len(p) /\ SubSeq(s, Len(s) - Len(p) + 1, Len(s)) = p
DropPrefix(s, p) == SubSeq(s, Len(p) + 1, Len(s))
DropSuffix(s, p) == SubSeq(s, 1, Len(s) - Len(p))

\* Byte order on strings of printable characters and white space.
RECURSIVE LessFrom(_, _, _)
LessFrom(a, b, i) ==
  IF i > Len(b) THEN FALSE
  ELSE IF i > Len(a) THEN TRUE
  ELSE IF Ch(a, i) = Ch(b, i) THEN LessFrom(a, b, i + 1)
  ELSE CodeOf(Ch(a, i)) < CodeOf(Ch(b, i))
StrLess(a, b) == a # b /\ LessFrom(a, b, 1)

\* Split a string at every occurrence of the one-character string sep.
RECURSIVE SplitFrom(_, _, _, _)
SplitFrom(s, sep, st, i) ==
  IF i > Len(s) THEN <<SubSeq(s, st, Len(s))>>
  ELSE IF Ch(s, i) = sep THEN <<SubSeq(s, st, i - 1)>> \o SplitFrom(s, sep, i + 1, i + 1)
  ELSE SplitFrom(s, sep, st, i + 1)
Split(s, sep) == SplitFrom(s, sep, 1, 1)

RECURSIVE JoinFrom(_, _, _)
JoinFrom(ss, sep, i) == IF i > Len(ss) THEN "" ELSE IF i = Len(ss) THEN ss[i] ELSE ss[i] \o sep \o JoinFrom(ss, sep, i + 1)
Join(ss, sep) == JoinFrom(ss, sep, 1)

\* Index of the first occurrence of character c in s at or after i; 0 if none.
RECURSIVE IndexFrom(_, _, _)
IndexFrom(s, c, i) == IF i > Len(s) THEN 0 ELSE IF Ch(s, i) = c THEN i ELSE IndexFrom(s, c, i + 1)
IndexOf(s, c) == IndexFrom(s, c, 1)

RECURSIVE LTrim(_, _)
LTrim(s, set) == IF s # "" /\ Ch(s, 1) \in set THEN LTrim(SubSeq(s, 2, Len(s)), set) ELSE s
RECURSIVE RTrim(_, _)
RTrim(s, set) == IF s # "" /\ Ch(s, Len(s)) \in set THEN RTrim(SubSeq(s, 1, Len(s) - 1), set) ELSE s
Trim(s, set) == RTrim(LTrim(s, set), set)

\* Numerals of any length, as canonical decimal strings.
NumNorm(s) == LET t == LTrim(s, {"0"}) IN IF t = "" THEN "0" ELSE t
DigVal(c) == CASE c = "0" -> 0 [] c = "1" -> 1 [] c = "2" -> 2 [] c = "3" -> 3 [] c = "4" -> 4 [] c = "5" -> 5
               [] c = "6" -> 6 [] c = "7" -> 7 [] c = "8" -> 8 [] c = "9" -> 9
RECURSIVE DigCmpFrom(_, _, _)
DigCmpFrom(x, y, i) == IF i > Len(x) THEN 0
                       ELSE IF Ch(x, i) = Ch(y, i) THEN DigCmpFrom(x, y, i + 1)
                       ELSE IF DigVal(Ch(x, i)) < DigVal(Ch(y, i)) THEN -1 ELSE 1
NumCmp(a, b) == LET x == NumNorm(a) y == NumNorm(b) IN
                IF x = y THEN 0 ELSE IF Len(x) < Len(y) THEN -1 ELSE IF Len(x) > Len(y) THEN 1 ELSE DigCmpFrom(x, y, 1)
NumLess(a, b) == NumCmp(a, b) < 0
AllDigits(s) == s # "" /\ \A i \in 1..Len(s) : Ch(s, i) \in Digits

Range(f) == {f[x] : x \in DOMAIN f}
RECURSIVE SeqMap(_, _)
SeqMap(Op(_), s) == IF s = <<>> THEN <<>> ELSE <<Op(s[1])>> \o SeqMap(Op, Tail(s))
IsPerm(a, b) == Len(a) = Len(b) /\ \A x \in Range(a) \cup Range(b) :
                  Cardinality({i \in 1..Len(a) : a[i] = x}) = Cardinality({i \in 1..Len(b) : b[i] = x})
=============================================================================
