-------------------------------- MODULE Wrap --------------------------------
(* Laying out a text at a width: line breaks of the text stay, others are put in the place of white space, each followed by the indentation;
   nothing else changes.  Texts and results are sequences of characters. *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS NL, SP, TAB, MinCols, BlockPad, Slop
White == {NL, SP, TAB}
Pad(n) == [k \in 1..n |-> SP]
\* Same(s, out, n): out is s with every NL, and some white space, replaced by NL and n spaces
RECURSIVE SameFrom(_, _, _, _, _)
SameFrom(s, out, n, i, j) ==
  IF i > Len(s) THEN j > Len(out)
  ELSE IF j > Len(out) THEN FALSE
  ELSE IF out[j] = NL THEN s[i] \in White /\ j + n <= Len(out) /\ (\A k \in 1..n : out[j + k] = SP) /\ SameFrom(s, out, n, i + 1, j + n + 1)
  ELSE s[i] = out[j] /\ s[i] # NL /\ SameFrom(s, out, n, i + 1, j + 1)
Same(s, out, n) == SameFrom(s, out, n, 1, 1)
Breaks(s) == {i \in 1..Len(s) : s[i] = NL}
\* the lengths of the lines of out, the first one beginning at column c
RECURSIVE Longest(_, _, _, _)
Longest(out, i, c, m) == LET m2 == IF c > m THEN c ELSE m IN
  IF i > Len(out) THEN m2 ELSE IF out[i] = NL THEN Longest(out, i + 1, 0, m2) ELSE Longest(out, i + 1, c + 1, m2)
RECURSIVE LongestWord(_, _, _, _)
LongestWord(s, i, c, m) == LET m2 == IF c > m THEN c ELSE m IN
  IF i > Len(s) THEN m2 ELSE IF s[i] \in White THEN LongestWord(s, i + 1, 0, m2) ELSE LongestWord(s, i + 1, c + 1, m2)

\* the layouts of s that are right for indentation i and width w (0: do not wrap)
Roomy(i, w) == w - i >= MinCols
Block(out) == Len(out) > BlockPad /\ out[1] = NL /\ \A k \in 1..BlockPad : out[k + 1] = SP
Body(out) == SubSeq(out, BlockPad + 2, Len(out))
Kept(s, i, w, out) ==
  IF w = 0 \/ Roomy(i, w) THEN Same(s, out, i)
  ELSE Same(s, out, BlockPad) \/ (Block(out) /\ Same(s, Body(out), BlockPad))
Fits(s, i, w, out) ==
  IF w = 0 \/ w < MinCols THEN TRUE
  ELSE IF Roomy(i, w) THEN LongestWord(s, 1, 0, 0) > w - i - Slop - 2 \/ Longest(out, 1, i, 0) <= w
  ELSE w - BlockPad < MinCols \/ LongestWord(s, 1, 0, 0) > w - BlockPad - Slop - 2 \/ Longest(out, 1, IF Block(out) THEN 0 ELSE i, 0) <= w
\* nothing is broken that fits as it is
Unbroken(s, i, w, out) ==
  IF w = 0 THEN Cardinality({k \in 1..Len(out) : out[k] = NL}) = Cardinality(Breaks(s))
  ELSE ~Roomy(i, w) \/ Len(s) >= w - i \/ Cardinality({k \in 1..Len(out) : out[k] = NL}) = Cardinality(Breaks(s))
=============================================================================
