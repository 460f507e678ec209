-------------------------------- MODULE Wheel --------------------------------
(* Python wheels: which archives may be installed (C05), where their members go and with what content (C06, C07),
   and what the installation adds (C08, C09).

   An archive is a sequence ms of members
     [c: the components of the name, p: the same, cleaned, ab: it is absolute, dir, um: UNIX mode, s, n: time, size: numeral, ok: it can be
      read, dig: digests in the form of RECORD, data: token of the content, head: its first nine characters,
      asCon, asGui: tokens of the content with the first line rewritten, lines: its lines (WHEEL and entry_points.txt),
      rok, rows: the rows of a RECORD].
   A platform is [pure, plat, head, scr, data: seq of components; uid, gid, un, gn]. *)
EXTENDS Files, Pep440, Config

CName(m) == m.p
\* The members with their cleaned names.
WithNames(ms) == [i \in 1..Len(ms) |-> ms[i] @@ [p |-> Clean(ms[i].c)]]
Outside(m) == m.ab \/ (CName(m) # <<>> /\ CName(m)[1] = "..") \/ (CName(m) = <<>> /\ ~m.dir)
Tops(ms) == {CName(ms[i])[1] : i \in {j \in 1..Len(ms) : CName(ms[j]) # <<>> /\ HasSuffix(CName(ms[j])[1], ".dist-info")}}
InfoOf(ms) == CHOOSE t \in Tops(ms) : TRUE
DataOf(ms) == DropSuffix(InfoOf(ms), ".dist-info") \o ".data"
At2(ms, p) == {i \in 1..Len(ms) : ms[i].p = p}
FileAt(ms, p) == LET S == {i \in At2(ms, p) : ~ms[i].dir} IN IF S = {} THEN 0 ELSE MinOf(S)

Strong == {"sha256", "sha384", "sha512"}
AlgoOf(h) == LET p == IndexOf(h, "=") IN IF p = 0 THEN h ELSE SubSeq(h, 1, p - 1)

\* ---- the integrity of an archive ----
RowWhy(r, ms, info) ==
  IF Len(r) # 3 THEN "a row of RECORD has not three columns"
  ELSE LET p == Clean(Split(r[1], "/")) i == FileAt(ms, p) self == p = <<info, "RECORD">> IN
    IF HasPrefix(r[1], "/") \/ At2(ms, p) = {} THEN "RECORD lists a missing file"
    ELSE IF i = 0 THEN ""  \* a directory: not judged, see Unsure
    ELSE IF ~ms[i].ok THEN "a listed file cannot be read"
    ELSE IF (r[2] = "" \/ r[3] = "") /\ ~self THEN "a row of RECORD lacks the digest or the size"
    ELSE IF r[2] # "" /\ AlgoOf(r[2]) \notin Strong THEN "a digest of RECORD is of a weak or unknown kind"
    ELSE IF r[2] # "" /\ r[2] \notin Range(ms[i].dig) THEN "a digest does not match"
    ELSE IF r[3] # "" /\ r[3] # ms[i].size THEN "a size does not match"
    ELSE ""
VersionLine(lines, key) == \* the value of the first line "key: value"; <<>> if none
  LET S == {i \in 1..Len(lines) : IndexOf(lines[i], ":") # 0 /\ ToLower(SubSeq(lines[i], 1, IndexOf(lines[i], ":") - 1)) = key}
  IN IF S = {} THEN <<>> ELSE LET ln == lines[MinOf(S)] IN <<Strip(SubSeq(ln, IndexOf(ln, ":") + 1, Len(ln)))>>
VersionOK(lines) == LET v == VersionLine(lines, "wheel-version") IN
  v # <<>> /\ LET p == ParseVersion(v[1]) IN p.ok /\ NumCmp(p.v.rel[1], "1") <= 0
\* The lines of the header: up to the first empty line.
RECURSIVE HeadOf(_, _)
HeadOf(ls, i) == IF i > Len(ls) \/ Strip(ls[i]) = "" THEN SubSeq(ls, 1, i - 1) ELSE HeadOf(ls, i + 1)
Header(ms) == LET i == FileAt(ms, <<InfoOf(ms), "WHEEL">>) IN HeadOf(ms[i].lines, 1)
IsPure(ms) == VersionLine(Header(ms), "root-is-purelib") = <<"true">>

Integrity(ms) ==
  IF \E i \in 1..Len(ms) : Outside(ms[i]) THEN "a name is outside of the archive"
  ELSE IF \E i, j \in 1..Len(ms) : i < j /\ CName(ms[i]) = CName(ms[j]) /\ ~(ms[i].dir /\ ms[j].dir) THEN "a file is there twice"
  ELSE IF Cardinality(Tops(ms)) # 1 THEN "not exactly one dist-info directory"
  ELSE LET info == TLCEval(InfoOf(ms)) rec == FileAt(ms, <<info, "RECORD">>) wh == FileAt(ms, <<info, "WHEEL">>) IN
    IF rec = 0 THEN "no RECORD" ELSE IF ~ms[rec].ok \/ ~ms[rec].rok THEN "an unreadable RECORD"
    ELSE LET rows == ms[rec].rows
             bad == {i \in 1..Len(rows) : RowWhy(rows[i], ms, info) # ""}
             listed == TLCEval({Clean(Split(rows[i][1], "/")) : i \in {j \in 1..Len(rows) : Len(rows[j]) > 0}}) IN
      IF bad # {} THEN RowWhy(rows[MinOf(bad)], ms, info)
      ELSE IF \E i \in 1..Len(ms) : ~ms[i].dir /\ CName(ms[i]) \notin listed \cup {<<info, "RECORD.jws">>, <<info, "RECORD.p7s">>} THEN "a file is not listed in RECORD"
      ELSE IF wh = 0 THEN "no WHEEL"
      ELSE IF \E i \in 1..Len(Header(ms)) : IndexOf(Header(ms)[i], ":") = 0 THEN "a malformed WHEEL"
      ELSE IF ~VersionOK(Header(ms)) THEN "not a supported version of the format"
      ELSE ""
\* Whether the specification leaves it open if the archive is accepted.
Unsure(ms) ==
  \/ \E i \in 1..Len(ms) : ms[i].dir /\ ms[i].size # "0"
  \/ \E i \in 1..Len(ms) : ms[i].rok /\ \E r \in 1..Len(ms[i].rows) : Len(ms[i].rows[r]) > 0 /\ LET p == Clean(Split(ms[i].rows[r][1], "/")) IN At2(ms, p) # {} /\ FileAt(ms, p) = 0

\* ---- where the members go ----
AbsClean(cs) == LET c == Clean(cs) d == {i \in 1..Len(c) : c[i] # ".."} IN IF d = {} THEN <<>> ELSE SubSeq(c, MinOf(d), Len(c))
DataKeys == {"purelib", "platlib", "headers", "scripts", "data"}
KeyDir(plat, k) == CASE k = "purelib" -> plat.pure [] k = "platlib" -> plat.plat [] k = "headers" -> plat.head [] k = "scripts" -> plat.scr [] k = "data" -> plat.data
\* What is needed to place the members: k: [info, data: names of the two directories, root: where the archive goes, plat].
PlaceCtx(ms, plat) == TLCEval([info |-> InfoOf(ms), data |-> DataOf(ms), root |-> IF IsPure(ms) THEN plat.pure ELSE plat.plat, plat |-> plat])
IsData(m, k) == Len(m.p) >= 2 /\ m.p[1] = k.data
KeyOf(m, k) == IF IsData(m, k) THEN m.p[2] ELSE ""
DestOf(m, k) == IF IsData(m, k) THEN KeyDir(k.plat, KeyOf(m, k)) \o SubSeq(m.p, 3, Len(m.p)) ELSE k.root \o m.p
Layout(ms, k) ==
  IF \E i \in 1..Len(ms) : IsData(ms[i], k) /\ KeyOf(ms[i], k) \notin DataKeys THEN "an unknown kind of data"
  ELSE IF \E i \in 1..Len(ms) : IsData(ms[i], k) /\ Len(ms[i].p) = 2 /\ ~ms[i].dir THEN "a kind of data that is a file"
  ELSE IF FileAt(ms, <<k.data>>) # 0 THEN "the data directory is a file"
  ELSE LET d == TLCEval([i \in 1..Len(ms) |-> DestOf(ms[i], k)]) IN
       IF \E i, j \in 1..Len(ms) : i < j /\ d[i] = d[j] /\ ~(ms[i].dir /\ ms[j].dir) THEN "two files for one place"
  ELSE ""

IsExec(um) == (um \div 4096) = 8 /\ ((um \div 64) % 2 = 1 \/ (um \div 8) % 2 = 1 \/ um % 2 = 1)
Rewrite(m, k) == IF KeyOf(m, k) # "scripts" \/ m.dir THEN "" ELSE IF m.head = "#!pythonw" THEN "gui" ELSE IF HasPrefix(m.head, "#!python") THEN "con" ELSE ""
\* times: [mins: <<>> or <<seconds>>, clamp: [s, n]]
WhenOf(m, times) == Clamped(IF times.mins # <<>> THEN [s |-> times.mins[1], n |-> 0] ELSE [s |-> m.s, n |-> m.n], times.clamp)
MemberEntry(ms, i, k, times) ==
  LET m == ms[i] rw == Rewrite(m, k) IN
  [c |-> DestOf(m, k), t |-> IF m.dir THEN "dir" ELSE "reg", link |-> "",
   mode |-> IF m.dir \/ IsExec(m.um) \/ rw # "" THEN 493 ELSE 420,
   whens |-> {WhenOf(m, times)}, data |-> IF m.dir THEN "" ELSE CASE rw = "" -> m.data [] rw = "con" -> m.asCon [] rw = "gui" -> m.asGui,
   i |-> i, rw |-> rw # "", txt |-> "*"]
Dropped(k) == {k.root \o <<k.info, f>> : f \in {"RECORD", "RECORD.jws", "RECORD.p7s"}} \cup {k.root \o <<k.data>>, <<>>}
\* What the members become: a function from places to entries.
Placed(ms, k, times) ==
  LET E == TLCEval({MemberEntry(ms, i, k, times) : i \in 1..Len(ms)})
      D == {e.c : e \in E} \ Dropped(k) IN
  [p \in D |-> LET S == {e \in E : e.c = p} IN [(CHOOSE e \in S : TRUE) EXCEPT !.whens = UNION {e.whens : e \in S}]]

\* ---- what the installation adds ----
Added(p, mode, data, txt, times) == [c |-> p, t |-> "reg", link |-> "", mode |-> mode, whens |-> {times.clamp}, data |-> data, i |-> 0, rw |-> FALSE, txt |-> txt]
IsPy(e) == e.t = "reg" /\ HasSuffix(Base(e.c), ".py")
PycPath(p, tag) == Parent(p) \o <<"__pycache__", DropSuffix(Base(p), ".py") \o "." \o tag \o ".pyc">>
\* compiled: function from the place of a source to the token of the compiled file ("*": anything)
WithCompiled(F, tag, data, times) ==
  LET S == {p \in DOMAIN F : IsPy(F[p])} q == [p \in S |-> PycPath(p, tag)] IN
  [x \in {q[p] : p \in S} |-> LET p == CHOOSE p \in S : q[p] = x IN [Added(x, 420, data[p], "*", times) EXCEPT !.rw = TRUE]] @@ F
\* The declared scripts, if the entry points are to become scripts.
EPLines(F, ms, info) == LET p == Append(info, "entry_points.txt") IN IF p \in DOMAIN F /\ F[p].t = "reg" THEN ms[F[p].i].lines ELSE <<>>
WithScripts(F, scripts, plat, times) == [p \in {Append(plat.scr, s.name) : s \in scripts} |-> Added(p, 493, "*", "*", times)] @@ F
WithFile(F, p, txt, times) == (p :> Added(p, 420, "*", txt, times)) @@ F

BelowFile(F) == {p \in DOMAIN F : \E k \in 1..(Len(p) - 1) : SubSeq(p, 1, k) \in DOMAIN F /\ F[SubSeq(p, 1, k)].t # "dir"}
WithParents(F, times) ==
  LET P == UNION {{SubSeq(p, 1, k) : k \in 1..(Len(p) - 1)} : p \in DOMAIN F} \ DOMAIN F IN
  [p \in P |-> [Added(p, 493, "", "*", times) EXCEPT !.t = "dir"]] @@ F

\* ---- RECORD of the installation ----
\* The place a row of RECORD stands for: relative to the directory that contains the dist-info directory.
RowPlace(row, info) == IF HasPrefix(row[1], "/") THEN AbsClean(Split(row[1], "/")) ELSE AbsClean(Parent(info) \o Split(row[1], "/"))
\* F: what is installed including RECORD; sums: function from places to [size, dig]
RecordWhy(rows, F, info, sums) ==
  LET files == {p \in DOMAIN F : F[p].t # "dir"} self == Append(info, "RECORD")
      at == TLCEval([i \in 1..Len(rows) |-> RowPlace(rows[i], info)]) IN
  IF \E i \in 1..Len(rows) : Len(rows[i]) # 3 THEN "a row has not three columns"
  ELSE IF {at[i] : i \in 1..Len(rows)} # files THEN
       (IF files \subseteq {at[i] : i \in 1..Len(rows)} THEN "RECORD lists what is not installed: " \o ToString({at[i] : i \in 1..Len(rows)} \ files)
        ELSE "RECORD does not list " \o ToString(files \ {at[i] : i \in 1..Len(rows)}))
  ELSE IF Len(rows) # Cardinality(files) THEN "a file is listed twice"
  ELSE LET bad == {i \in 1..Len(rows) :
             IF at[i] = self THEN rows[i][2] # "" \/ rows[i][3] # ""
             ELSE IF F[at[i]].rw \/ HasSuffix(Base(at[i]), ".pyc") THEN FALSE
             ELSE rows[i][2] # sums[at[i]].dig \/ rows[i][3] # sums[at[i]].size}
       IN IF bad = {} THEN "" ELSE "the row of " \o rows[MinOf(bad)][1] \o " does not describe the installed file: " \o ToString(rows[MinOf(bad)])
=============================================================================
