----------------------------- MODULE WrapDesign -----------------------------
(* Every short text over a letter and two kinds of white space, every width and indentation, laid out step by step: cut at the last line break
   or else the last white space that leaves the line short enough, until the rest fits. *)
EXTENDS Wrap
CONSTANTS MaxLen, MaxW
VARIABLES s, i, w, rest, out, pad, cols, done
vars == <<s, i, w, rest, out, pad, cols, done>>
Alpha == {NL, SP, "a"}
RECURSIVE Texts(_)
Texts(n) == IF n = 0 THEN {<<>>} ELSE LET T == Texts(n - 1) IN T \cup {Append(t, c) : t \in {x \in T : Len(x) = n - 1}, c \in Alpha}
Shown(t, n) == LET RECURSIVE F(_) F(k) == IF k > Len(t) THEN <<>> ELSE (IF t[k] = NL THEN <<NL>> \o Pad(n) ELSE <<t[k]>>) \o F(k + 1) IN F(1)
Init == /\ s \in Texts(MaxLen) /\ i \in 0..2 /\ w \in 0..MaxW /\ rest = s /\ done = FALSE
        /\ pad = (IF w = 0 \/ Roomy(i, w) THEN i ELSE BlockPad) /\ cols = w - pad
        /\ out = (IF w = 0 \/ Roomy(i, w) \/ cols < MinCols THEN <<>> ELSE <<NL>> \o Pad(BlockPad))
Last(S) == CHOOSE x \in S : \A y \in S : y <= x
Avail == cols - Slop
Next ==
  /\ ~done
  /\ LET ws == {k \in 2..(IF Avail < Len(rest) THEN Avail ELSE Len(rest)) : rest[k] \in White}
         nl == {k \in ws : rest[k] = NL} IN
     IF w = 0 \/ cols < MinCols \/ cols > Len(rest) \/ ws = {} THEN out' = out \o Shown(rest, pad) /\ rest' = <<>> /\ done' = TRUE
     ELSE LET cut == IF nl # {} THEN Last(nl) ELSE Last(ws) IN
          out' = out \o Shown(SubSeq(rest, 1, cut - 1), pad) \o <<NL>> \o Pad(pad) /\ rest' = SubSeq(rest, cut + 1, Len(rest)) /\ done' = FALSE
  /\ UNCHANGED <<s, i, w, pad, cols>>
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Right == done => Kept(s, i, w, out) /\ Fits(s, i, w, out) /\ Unbroken(s, i, w, out)
Ends == <>done
=============================================================================
