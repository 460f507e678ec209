------------------------------- MODULE TSquash -------------------------------
(* Judges recorded squashes: ev = [in: the input layers, err: "" or the error, out: the entries of the
   squashed layer, same: whether repetitions gave the same bytes]. *)
EXTENDS PathOrder, TraceBase

\* The layers are well-formed in the sense of the image specification.
WellFormedEntry(e) ==
  LET p == Clean(e.c) IN
  /\ p = <<>> => e.t = "dir"
  /\ \A k \in 1..Len(p) : HasPrefix(p[k], WhPrefix) => k = Len(p) /\ e.t = "reg" /\ p[k] # WhPrefix
       /\ (HasPrefix(p[k], ".wh..wh.") => p[k] = Opaque) /\ p[k] \notin {".wh..", ".wh..."}
WellFormed(Ls) == \A i \in 1..Len(Ls) : \A j \in 1..Len(Ls[i]) : WellFormedEntry(Ls[i][j])

\* All hard links are to files of the stack (malformed otherwise, or about a base file the squasher cannot see).
RECURSIVE LinksOKFrom(_, _, _, _)
LinksOKFrom(fs, L, j, Ls) ==
  IF j > Len(L) THEN TRUE
  ELSE LET p == Clean(L[j].c) IN
    IF IsMarker(p) THEN LinksOKFrom(fs, L, j + 1, Ls)
    ELSE LET r == ApplyFile(fs, p, L[j])
             w == WalkDir(fs, <<>>, Parent(p), MaxHops)
         IN IF r.ok THEN LinksOKFrom(r.fs, L, j + 1, Ls) ELSE ~w.ok
RECURSIVE LinksOKLayers(_, _, _)
LinksOKLayers(fs, Ls, i) ==
  IF i > Len(Ls) THEN TRUE
  ELSE LET m == ApplyMarkers([ok |-> TRUE, fs |-> fs, p |-> <<>>], Ls[i], 1) IN
    IF ~m.ok THEN TRUE
    ELSE LinksOKFrom(m.fs, Ls[i], 1, Ls) /\ LET r == ApplyFiles(m, Ls[i], 1) IN ~r.ok \/ LinksOKLayers(r.fs, Ls, i + 1)
HasLinks(Ls) == \E i \in 1..Len(Ls) : \E j \in 1..Len(Ls[i]) : Ls[i][j].t = "lnk"
LinksOK(Ls) == ~HasLinks(Ls) \/ LinksOKLayers(EmptyFS, Ls, 1)

AnyEscapes(Ls) == \E i \in 1..Len(Ls) : \E j \in 1..Len(Ls[i]) : Escapes(Ls[i][j])

SetToSeqOf(S) == CHOOSE s \in [1..Cardinality(S) -> S] : {s[i] : i \in 1..Cardinality(S)} = S
FirstDiff(want, got) ==
  IF \E p \in DOMAIN want : p \notin DOMAIN got THEN "missing " \o ToString(CHOOSE p \in DOMAIN want : p \notin DOMAIN got)
  ELSE IF \E p \in DOMAIN got : p \notin DOMAIN want THEN "unexpected " \o ToString(CHOOSE p \in DOMAIN got : p \notin DOMAIN want)
  ELSE "different " \o ToString(CHOOSE p \in DOMAIN want : ~SameNode(want[p], got[p]))

JudgeEquiv(ev) ==
  LET first == Unpack(EmptyFS, ev.in) IN
  IF ~first.ok THEN Ck(ev.err # "", "the symlinks loop, but no error was reported")
  ELSE IF ev.err # "" THEN <<"unexpected error: " \o ev.err>>
  ELSE LET bad == {b \in StdBases(ev.in) :
                     LET want == Unpack(b, ev.in) got == Unpack(b, <<ev.out>>)
                     IN want.ok /\ ~(got.ok /\ SameFS(want.fs, got.fs))}
       IN IF bad = {} THEN <<>>
          ELSE LET b == CHOOSE b \in bad : TRUE
                   got == Unpack(b, <<ev.out>>)
               IN <<"on the base with " \o ToString(Cardinality(DOMAIN b)) \o " paths: " \o
                    (IF got.ok THEN FirstDiff(Unpack(b, ev.in).fs, got.fs) ELSE "the output cannot be unpacked")>>

OutPath(o) == Clean(o.c)
CanonName(o) ==
  LET p == OutPath(o) IN
  /\ ~o.ab
  /\ o.name = (IF p = <<>> THEN "./" ELSE Join(p, "/") \o (IF o.t = "dir" THEN "/" ELSE ""))
  /\ \A k \in 1..Len(p) : p[k] # ".."

JudgeCanon(ev) ==
  IF AnyEscapes(ev.in) THEN Ck(ev.err # "", "an entry outside of the image root was accepted")
  ELSE LET raw == Unpack(EmptyFS, ev.in) IN
  IF ~raw.ok THEN Ck(ev.err # "", "the symlinks loop, but no error was reported")
  ELSE IF ev.err # "" THEN <<"unexpected error: " \o ev.err>>
  ELSE LET out == ev.out
           gotraw == Unpack(EmptyFS, <<out>>)
           nonc == {i \in 1..Len(out) : ~CanonName(out[i])}
           unord == {i \in 1..Len(out) - 1 : ~PathLess(OutPath(out[i]), OutPath(out[i + 1]))}
       IN Ck(nonc = {}, "a name is not canonical: " \o (IF nonc = {} THEN "" ELSE out[CHOOSE i \in nonc : TRUE].name))
       \o Ck(unord = {}, "the entries are not in order: " \o (IF unord = {} THEN "" ELSE out[CHOOSE i \in unord : TRUE].name))
       \o Ck(ev.same, "the same input gave different bytes")
       \o (IF ~gotraw.ok THEN <<"the output cannot be unpacked">>
           ELSE Ck(SameFS(raw.fs, gotraw.fs), "attributes: " \o (IF SameFS(raw.fs, gotraw.fs) THEN "" ELSE FirstDiff(raw.fs, gotraw.fs))))

Judge(ev) ==
  IF ~WellFormed(ev.in) THEN <<>>
  ELSE IF AnyEscapes(ev.in) THEN IF Prop = "C02" THEN JudgeCanon(ev) ELSE <<>>
  ELSE IF ~LinksOK(ev.in) THEN <<>>
  ELSE IF Prop = "C01" THEN JudgeEquiv(ev) ELSE JudgeCanon(ev)

TraceNext == StepWith(Judge)
TraceSpec == TraceInit /\ [][TraceNext]_l
=============================================================================
