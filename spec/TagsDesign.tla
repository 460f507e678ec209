----------------------------- MODULE TagsDesign -----------------------------
(* The specification of tags and file names checked against itself.
   Mode "tags": every installer list and tag over a small vocabulary: acceptance and preference agree, and are those
     of the expanded product, whichever way either side is compressed.
   Mode "name": every file name made of a few components: one reading, and a stable generated name. *)
EXTENDS Tags, Json
CONSTANTS Mode, MaxLen, EmitCases
VARIABLES inst, tag, fname, stage
vars == <<inst, tag, fname, stage>>

Pys == {"a", "b", "a.b"}
Abis == {"n", "m", "n.m"}
Plats == {"x", "y.x"}
AllTags == {<<p, q, r>> : p \in Pys, q \in Abis, r \in Plats}
Pieces == {"d", "1.0", "1", "01x", "a.b", "", "v1", "1_post2", "x-y"}

Init == inst = <<>> /\ tag = <<"a", "n", "x">> /\ fname = <<>> /\ stage = 0
Grow == Mode = "tags" /\ stage = 0 /\ Len(inst) < MaxLen /\ \E t \in AllTags : inst' = Append(inst, t) /\ UNCHANGED <<tag, fname, stage>>
Ask == Mode = "tags" /\ stage = 0 /\ \E t \in AllTags : tag' = t /\ stage' = 1 /\ UNCHANGED <<inst, fname>>
Name == Mode = "name" /\ Len(fname) < MaxLen /\ \E p \in Pieces : fname' = Append(fname, p) /\ UNCHANGED <<inst, tag, stage>>
Next == Grow \/ Ask \/ Name
Spec == Init /\ [][Next]_vars

Expand(S) == LET ts == [i \in 1..Len(S) |-> Product(S[i])] IN Flat(ts)
Agree == Mode = "tags" /\ stage = 1 =>
  /\ Supports(inst, tag) = (Preference(inst, tag) <= Len(inst))
  /\ Supports(inst, tag) = \E t \in Den(tag) : Supports(inst, t)
  /\ Supports(inst, tag) = Supports(Expand(inst), tag)
  /\ (tag \in Range(inst) => Supports(inst, tag))
  /\ \A t \in Den(tag) : Preference(inst, tag) <= Preference(inst, t)
  /\ ParseTag(TagStr(tag)).v = tag
  /\ Len(Product(tag)) = Cardinality(Den(tag))
NameOf == Join(fname, "-") \o ".whl"
OneReading == Mode = "name" =>
  LET p == TLCEval(ParseFilename(NameOf)) IN
  p.ok => LET g == GenerateFilename(p.v) q == TLCEval(ParseFilename(g.v)) IN
          g.ok /\ q.ok /\ q.v = [p.v EXCEPT !.dist = EscapeDist(p.v.dist)] /\ GenerateFilename(q.v).v = g.v
Emit == EmitCases => IF Mode = "name" THEN PrintT("CASE " \o ToJson([s |-> NameOf]))
                     ELSE (stage = 1 => PrintT("CASE " \o ToJson([inst |-> [i \in 1..Len(inst) |-> TagStr(inst[i])], tag |-> TagStr(tag)])))
=============================================================================
