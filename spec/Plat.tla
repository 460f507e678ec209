-------------------------------- MODULE Plat --------------------------------
(* Describing a Python platform (C23): what 'python inspect' prints for an interpreter of the host or of an image. *)
EXTENDS Strs

\* Programs are a sequence of [n: name, k: none/fail/junk/bad64/says, rep: number of a report] in the one directory dir of
\* the search path.  A report is [magic, tags, ver: <<major, minor, micro, level, serial>>, scheme: seq of 5 directories].
ProgOf(ps, n) == LET S == {i \in 1..Len(ps) : ps[i].n = n /\ ps[i].k # "none"} IN IF S = {} THEN 0 ELSE CHOOSE i \in S : TRUE
Has(ps, n) == ProgOf(ps, n) # 0
ConsoleName(ps, n) == IF HasPrefix(n, "pythonw") /\ Has(ps, "python" \o DropPrefix(n, "pythonw")) THEN "python" \o DropPrefix(n, "pythonw") ELSE n
GraphicalName(ps, n) == LET c == ConsoleName(ps, n) IN
  IF HasPrefix(c, "python") /\ ~HasPrefix(c, "pythonw") /\ Has(ps, "pythonw" \o DropPrefix(c, "python")) THEN "pythonw" \o DropPrefix(c, "python") ELSE n
\* The owner of the first directory that exists; dirs: 0 (missing) or the number of an owner.
RECURSIVE FirstOwner(_, _)
FirstOwner(dirs, k) == IF k > Len(dirs) THEN 0 ELSE IF dirs[k] # 0 THEN dirs[k] ELSE FirstOwner(dirs, k + 1)
\* The interpreters of the host that are tried, in order, and the first that writes the same kind of bytecode.
Candidates(ver) == <<"python" \o ver[1] \o "." \o ver[2], "python" \o ver[1], "python">>
RECURSIVE FirstMatch(_, _, _, _, _)
FirstMatch(ps, reps, cs, magic, k) ==
  IF k > Len(cs) THEN "" ELSE
  LET i == ProgOf(ps, cs[k]) IN IF i # 0 /\ ps[i].k = "says" /\ reps[ps[i].rep].magic = magic THEN cs[k] ELSE FirstMatch(ps, reps, cs, magic, k + 1)

\* c: [mode: host/image, interp, host: programs in hdir, hdir, img: programs in idir, idir, reps, dirs]
Expected(c) ==
  LET ps == IF c.mode = "host" THEN c.host ELSE c.img
      dir == IF c.mode = "host" THEN c.hdir ELSE c.idir
      i == ProgOf(ps, ConsoleName(ps, c.interp)) o == FirstOwner(c.dirs, 1) IN
  IF ~Has(ps, c.interp) \/ ps[i].k # "says" \/ o = 0 THEN [ok |-> FALSE]
  ELSE LET r == c.reps[ps[i].rep]
           m == IF c.mode = "host" THEN ConsoleName(ps, c.interp) ELSE FirstMatch(c.host, c.reps, Candidates(r.ver), r.magic, 1) IN
       IF m = "" THEN [ok |-> FALSE]
       ELSE [ok |-> TRUE, con |-> dir \o "/" \o ConsoleName(ps, c.interp), gui |-> dir \o "/" \o GraphicalName(ps, c.interp), rep |-> ps[i].rep, owner |-> o,
             pyc |-> <<c.hdir \o "/" \o m, "-m", "compileall">>]

\* What is put behind the words of a user's command line, and what comes of it: the words fail and junk make the (stand-in) interpreter fail.
Inquiry == <<"-c", "inquiry">>
Answers(ws) == ws # <<>> /\ \A i \in 2..Len(ws) : ws[i] \notin {"fail", "junk"}
=============================================================================
