---------------------------- MODULE PlaceDesign ----------------------------
(* Archives with any names of members, installed on several platforms with any hooks: what is accepted lands inside the
   scheme, one place for each member and one member for each place, and RECORD leads back to every file. *)
EXTENDS Wheel, Json
CONSTANTS MaxParts, MaxMembers, EmitCases
VARIABLES names, plat, hooks

Info == "foo-1.0.dist-info"
Data == "foo-1.0.data"
Parts == {"p", "x.py", "..", ".", "", Data, "scripts", "purelib", "data", Info}
RECURSIVE Upto(_)
Upto(n) == IF n = 0 THEN {<<>>} ELSE LET U == Upto(n - 1) IN U \cup {Append(s, x) : s \in {t \in U : Len(t) = n - 1}, x \in Parts}
Names == TLCEval({n \in Upto(MaxParts) : n # <<>> /\ n # <<"">>})
P(pure, pl, head, scr, data) == [pure |-> pure, plat |-> pl, head |-> head, scr |-> scr, data |-> data, uid |-> 0, gid |-> 0, un |-> "", gn |-> ""]
Plats == <<P(<<"l">>, <<"l">>, <<"h">>, <<"b">>, <<>>), P(<<"s", "l">>, <<"s", "m">>, <<"s", "h">>, <<"s", "l", "p">>, <<"s">>), P(<<"s">>, <<"s">>, <<"s">>, <<"s">>, <<"s">>)>>

Row(n) == <<n, "sha256=D", "1">>
Mem(c, rows) == [c |-> c, ab |-> Len(c) > 0 /\ c[1] = "", dir |-> c[Len(c)] = "", um |-> 33188, s |-> 5, n |-> 0, size |-> IF c[Len(c)] = "" THEN "0" ELSE "1", ok |-> TRUE,
   dig |-> <<"sha256=D">>, data |-> "D", head |-> "", asCon |-> "", asGui |-> "", lines |-> <<"Wheel-Version: 1.0", "Root-Is-Purelib: true">>, rok |-> rows # <<>>, rows |-> rows]
Cs == <<<<Info, "WHEEL">>>> \o names
Rows == [i \in 1..Len(SelectSeq(Cs, LAMBDA c : c[Len(c)] # "")) |-> Row(Join(SelectSeq(Cs, LAMBDA c : c[Len(c)] # "")[i], "/"))] \o << <<Info \o "/RECORD", "", "">> >>
Archive == WithNames([i \in 1..Len(Cs) |-> Mem(Cs[i], <<>>)] \o <<Mem(<<Info, "RECORD">>, Rows)>>)

Init == names = <<>> /\ plat \in 1..Len(Plats) /\ hooks \in SUBSET {"scripts", "req", "record"}
Next == Len(names) < MaxMembers /\ UNCHANGED <<plat, hooks>> /\ \E n \in Names : names' = Append(names, n)
Spec == Init /\ [][Next]_<<names, plat, hooks>>

Times == [mins |-> <<>>, clamp |-> [s |-> 9, n |-> 0]]
Scripts == {[name |-> "run", kind |-> "console_scripts", ref |-> <<"m", "f">>]}
\* [ok, F, info, ms, k]
Result ==
  LET ms == TLCEval(Archive) w1 == TLCEval(Integrity(ms)) IN IF w1 # "" THEN [ok |-> FALSE]
  ELSE LET k == PlaceCtx(ms, Plats[plat]) w2 == TLCEval(Layout(ms, k)) IN IF w2 # "" THEN [ok |-> FALSE]
  ELSE LET F0 == TLCEval(Placed(ms, k, Times)) info == Append(k.root, k.info)
           F1 == TLCEval(WithCompiled(F0, "t", [p \in DOMAIN F0 |-> "C"], Times))
           F2 == TLCEval(IF "scripts" \in hooks THEN WithScripts(F1, Scripts, Plats[plat], Times) ELSE F1)
           F3 == TLCEval(IF "req" \in hooks THEN WithFile(F2, Append(info, "REQUESTED"), "", Times) ELSE F2)
           F4 == TLCEval(IF "record" \in hooks THEN WithFile(WithFile(F3, Append(info, "INSTALLER"), "i", Times), Append(info, "RECORD"), "*", Times) ELSE F3) IN
       IF BelowFile(F4) # {} THEN [ok |-> FALSE] ELSE [ok |-> TRUE, F |-> TLCEval(WithParents(F4, Times)), F0 |-> F0, info |-> info, ms |-> ms, k |-> k]

RECURSIVE AsSeq(_)
AsSeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o AsSeq(S \ {x})
RECURSIVE Common(_, _, _)
Common(p, r, i) == IF i >= Len(p) \/ i >= Len(r) \/ p[i + 1] # r[i + 1] THEN i ELSE Common(p, r, i + 1)
RelTo(base, p) == LET c == Common(base, p, 0) IN [i \in 1..(Len(base) - c) |-> ".."] \o SubSeq(p, c + 1, Len(p))
RowsOf(R) == LET files == {p \in DOMAIN R.F : R.F[p].t # "dir"} L == AsSeq(files) IN
  [i \in 1..Len(L) |-> IF L[i] = Append(R.info, "RECORD") THEN <<Join(RelTo(Parent(R.info), L[i]), "/"), "", "">> ELSE <<Join(RelTo(Parent(R.info), L[i]), "/"), "sha256=D", "1">>]

Sound == LET R == TLCEval(Result) IN R.ok =>
  LET pl == Plats[plat] S == {pl.pure, pl.plat, pl.head, pl.scr, pl.data} F == R.F IN
  \* inside the scheme, with clean names
  /\ \A p \in DOMAIN F : ".." \notin Range(p) /\ "." \notin Range(p) /\ "" \notin Range(p) /\ \E s \in S : IsPrefixEq(s, p) \/ (F[p].t = "dir" /\ IsPrefixEq(p, s))
  \* every directory is there and no file is used as one
  /\ \A p \in DOMAIN F : \A n \in 1..(Len(p) - 1) : SubSeq(p, 1, n) \in DOMAIN F /\ F[SubSeq(p, 1, n)].t = "dir"
  \* every file of the archive has its place, and none shares it
  /\ LET files == {i \in 1..Len(R.ms) : ~R.ms[i].dir} IN
     /\ \A i \in files : DestOf(R.ms[i], R.k) \in DOMAIN R.F0 \cup Dropped(R.k)
     /\ \A i, j \in files : i # j => DestOf(R.ms[i], R.k) # DestOf(R.ms[j], R.k)
  \* RECORD leads back to every file and is complete; without any one of its rows it is not
  /\ "record" \in hooks =>
       LET rows == TLCEval(RowsOf(R)) sums == [p \in DOMAIN F |-> [dig |-> "sha256=D", size |-> "1"]] IN
       /\ RecordWhy(rows, F, R.info, sums) = ""
       /\ RecordWhy(Tail(rows), F, R.info, sums) # "" /\ RecordWhy(Append(rows, rows[1]), F, R.info, sums) # ""
\* A name that leads out of the archive is never accepted.
NoEscape == (\E i \in 1..Len(names) : names[i][1] = "" \/ (Clean(names[i]) # <<>> /\ Clean(names[i])[1] = "..")) => ~Result.ok
Emit == (EmitCases /\ Len(names) > 0) => PrintT("CASE " \o ToJson([names |-> names, plat |-> plat, hooks |-> AsSeq(hooks)]))
=============================================================================
