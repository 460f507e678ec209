------------------------------ MODULE PepDesign ------------------------------
(* The version specification checked against itself.
   Mode "spell": every string of up to MaxTok tokens; the canonical spelling of whatever is accepted is accepted,
     denotes the same version, and is va fixed point.
   Mode "order": every triple of versions of va universe; the comparison is a total order, equal exactly for versions
     whose spelling differs by zero padding only.
   Mode "spec": every clause over the universe against every version: laws that relate the operators. *)
EXTENDS Pep440, Json
CONSTANTS Mode, MaxTok, Big, EmitCases

VARIABLES str, n, va, vb, vc
vars == <<str, n, va, vb, vc>>

Tokens == {"0", "1", "01", ".", "1!", "v", "a", "alpha", "rc", "pre", "preview", "post", "r", "dev", "-", "_", "+", "x", " ", "C", "*"}

Rels == IF Big THEN {<<"0">>, <<"1">>, <<"1", "0">>, <<"1", "1">>, <<"1", "0", "1">>} ELSE {<<"1">>, <<"1", "0">>, <<"1", "1">>}
Pres == IF Big THEN {<<>>, <<"a", "0">>, <<"a", "1">>, <<"b", "0">>, <<"rc", "10">>} ELSE {<<>>, <<"a", "2">>, <<"rc", "10">>}
Posts == {<<>>, <<"0">>, <<"2">>}
Devs == IF Big THEN {<<>>, <<"0">>, <<"1">>} ELSE {<<>>, <<"0">>}
Plain == [epoch: {"0"}, rel: Rels, pre: Pres, post: Posts, dev: Devs, local: {<<>>}]
Extra == [epoch: {"0", "1"}, rel: {<<"1">>, <<"1", "1">>}, pre: {<<>>}, post: {<<>>, <<"0">>}, dev: {<<>>}, local: {<<>>, <<"1">>, <<"a">>, <<"1", "a">>, <<"10">>}]
U == Plain \cup Extra
OpSet == {"~=", "==", "!=", "<=", ">=", "<", ">"}

Nothing == [epoch |-> "0", rel |-> <<"0">>, pre |-> <<>>, post |-> <<>>, dev |-> <<>>, local |-> <<>>]
Init == CASE Mode = "spell" -> str = "" /\ n = 0 /\ va = Nothing /\ vb = Nothing /\ vc = Nothing
          [] Mode = "order" -> str = "" /\ n = 0 /\ va \in U /\ vb = Nothing /\ vc = Nothing
          [] Mode = "spec" -> str \in OpSet /\ n \in {0, 1} /\ va \in U /\ vb = Nothing /\ vc = Nothing
Spell == Mode = "spell" /\ n < MaxTok /\ \E t \in Tokens : str' = str \o t /\ n' = n + 1 /\ UNCHANGED <<va, vb, vc>>
Order == Mode = "order" /\ ((n = 0 /\ vb' \in U /\ n' = 1 /\ UNCHANGED <<str, va, vc>>) \/ (n = 1 /\ vc' \in U /\ n' = 2 /\ UNCHANGED <<str, va, vb>>))
Against == Mode = "spec" /\ n < 2 /\ vb' \in U /\ n' = n + 2 /\ UNCHANGED <<str, va, vc>>
Next == Spell \/ Order \/ Against
Spec == Init /\ [][Next]_vars

Canonical == Mode = "spell" =>
  LET p == TLCEval(ParseVersion(str)) IN p.ok =>
    LET s == VersionStr(p.v) q == TLCEval(ParseVersion(s)) IN q.ok /\ q.v = p.v /\ VersionStr(q.v) = s /\ CmpVersion(p.v, q.v) = 0

Unpad(v) == [v EXCEPT !.rel = LET k == CHOOSE k \in 1..Len(v.rel) : (k = 1 \/ v.rel[k] # "0") /\ \A j \in k + 1..Len(v.rel) : v.rel[j] = "0" IN SubSeq(v.rel, 1, k)]
Total == Mode = "order" /\ n = 2 =>
  LET ab == CmpVersion(va, vb) bc == CmpVersion(vb, vc) ac == CmpVersion(va, vc) IN
  /\ ab \in {-1, 0, 1} /\ CmpVersion(vb, va) = -ab
  /\ (ab = 0) = (Unpad(va) = Unpad(vb))
  /\ (ab <= 0 /\ bc <= 0 => ac <= 0) /\ (ab <= 0 /\ bc < 0 => ac < 0) /\ (ab < 0 /\ bc <= 0 => ac < 0)
\* PEP 440's own summary of the order within va release.
Chain == Mode = "order" /\ n = 1 =>
  LET same == va.epoch = vb.epoch /\ Unpad([va EXCEPT !.pre = <<>>]).rel = Unpad(vb).rel /\ va.local = <<>> /\ vb.local = <<>> IN
  /\ same /\ va.dev # <<>> /\ va.pre = <<>> /\ va.post = <<>> /\ vb.dev = <<>> => CmpVersion(va, vb) < 0
  /\ same /\ va.pre # <<>> /\ vb.pre = <<>> /\ (vb.post # <<>> \/ vb.dev = <<>>) => CmpVersion(va, vb) < 0
  /\ [va EXCEPT !.post = <<>>] = [vb EXCEPT !.post = <<>>] /\ va.dev = <<>> /\ va.post = <<>> /\ vb.post # <<>> => CmpVersion(va, vb) < 0
  /\ [va EXCEPT !.local = <<>>] = vb /\ va.local # <<>> => CmpVersion(va, vb) > 0

Cl(op, star, v) == [op |-> op, star |-> star, ver |-> v]
Laws == Mode = "spec" /\ n >= 2 =>
  LET star == n = 3 /\ str \in {"==", "!="}
      cl == Cl(str, star, va)
      p == TLCEval(ParseSpec(ClauseStr(cl)))
      ok == /\ (str = "~=" => Len(va.rel) >= 2) /\ (va.local # <<>> => str \in {"==", "!="} /\ ~star) /\ (va.dev # <<>> => ~star)
      m(op, st, v) == MatchClause(Cl(op, st, v), vb)
  IN /\ p.ok = ok
     /\ ok => p.v = <<cl>>
     /\ m("!=", FALSE, va) = ~m("==", FALSE, va)
     /\ (m("<", FALSE, Public(va)) = ~m(">=", FALSE, Public(va)))
     /\ (m(">", FALSE, Public(va)) => ~m("<=", FALSE, Public(va)))
     /\ (~m(">", FALSE, Public(va)) /\ ~m("<=", FALSE, Public(va)) => PostOf(Public(va), vb))
     /\ (va.dev = <<>> /\ m("==", FALSE, Public(va)) => m("==", TRUE, Public(va)))
     /\ (Len(va.rel) >= 2 => m("~=", FALSE, Public(va)) =
           (m(">=", FALSE, Public(va)) /\ m("==", TRUE, [Empty440 EXCEPT !.epoch = va.epoch, !.rel = SubSeq(va.rel, 1, Len(va.rel) - 1)])))
     /\ (m("==", FALSE, Public(va)) => m("<=", FALSE, Public(va)) /\ m(">=", FALSE, Public(va)))
\* PEP 345: ranges agree with the corresponding PEP 440 order; equality is va series without its pre- and post-releases.
Laws345 == Mode = "spec" /\ n = 2 /\ str = "==" =>
  LET m(op, v) == Match345Clause([op |-> op, ver |-> v], vb) IN
  /\ m("!=", va) = ~m("==", va)
  /\ m(">=", va) = ~(CmpVersion(vb, va) < 0)
  /\ (m("<", va) => ~m(">=", va))
  /\ m("<=", va) = ~m(">", va)
  /\ (va.pre = <<>> /\ va.post = <<>> /\ va.dev = <<>> /\ va.local = <<>> /\ m("==", va) =>
        vb.pre = <<>> /\ vb.post = <<>> /\ vb.dev = <<>> /\ m(">=", va) /\ ~m("<", va))

Emit == EmitCases => PrintT("CASE " \o ToJson([s |-> str]))
EmitSpec == EmitCases /\ n < 2 => PrintT("CASE " \o ToJson([s |-> ClauseStr(Cl(str, n = 1 /\ str \in {"==", "!="}, va))]))
=============================================================================
