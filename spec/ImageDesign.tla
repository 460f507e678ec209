----------------------------- MODULE ImageDesign -----------------------------
(* Images built on images: every sequence of builds with every combination of flags. *)
EXTENDS Image, Json
CONSTANTS MaxBuilds, EmitCases
VARIABLES img, hist
vars == <<img, hist>>
Flags == [clear : BOOLEAN, env : {<<>>, <<"A=1">>, <<"A=2", "B=">>}, hasep : BOOLEAN, ep : {<<"e", "f">>}, hascmd : BOOLEAN, cmd : {<<"c">>}, wd : {"", "/w"}]
Adds == {<<"x">>, <<"y", "x">>}
Init == img = EmptyImage /\ hist = <<>>
Build == Len(hist) < MaxBuilds /\ \E f \in Flags, a \in Adds :
           img' = BuildImage(img, a, f) /\ hist' = Append(hist, [f |-> f, adds |-> a])
Next == Build
Spec == Init /\ [][Next]_vars
RECURSIVE Cats(_, _)
Cats(h, i) == IF i > Len(h) THEN <<>> ELSE h[i].adds \o Cats(h, i + 1)
Last(P(_)) == LET S == {i \in 1..Len(hist) : P(hist[i].f)} IN IF S = {} THEN 0 ELSE CHOOSE i \in S : \A j \in S : j <= i
RECURSIVE EnvFrom(_)
EnvFrom(i) == IF i > Len(hist) THEN <<>> ELSE hist[i].f.env \o EnvFrom(i + 1)
\* The layers of all builds in order; each setting is that of the last build that made it; nothing else changes.
Composes ==
  /\ img.layers = Cats(hist, 1) /\ img.cfg.hist = Len(img.layers)
  /\ img.cfg.ep = LET i == Last(LAMBDA f : f.hasep) IN IF i = 0 THEN <<>> ELSE hist[i].f.ep
  /\ img.cfg.cmd = LET i == Last(LAMBDA f : f.hascmd) IN IF i = 0 THEN <<>> ELSE hist[i].f.cmd
  /\ img.cfg.wd = LET i == Last(LAMBDA f : f.wd # "") IN IF i = 0 THEN "" ELSE hist[i].f.wd
  /\ img.cfg.env = LET i == Last(LAMBDA f : f.clear) IN EnvFrom(IF i = 0 THEN 1 ELSE i)
  /\ img.cfg.rest = {}
Idem == BuildImage(img, <<>>, NoFlags) = img
Emit == EmitCases /\ Len(hist) = MaxBuilds => PrintT("CASE " \o ToJson(hist))
=============================================================================
