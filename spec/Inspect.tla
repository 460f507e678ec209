------------------------------ MODULE Inspect ------------------------------
(* Looking programs up in an image: its own PATH, working directory and file system. *)
EXTENDS Layers
Odd == {"1", "3", "5", "7"}
\* m is the mode in octal
ExecMode(m) == \E i \in 1..3 : Len(m) >= i /\ Ch(m, Len(m) - i + 1) \in Odd
PathComps(p) == Clean(Split(p, "/"))
IsAbs(p) == HasPrefix(p, "/")
AbsStr(cs) == "/" \o Join(cs, "/")
WorkDir(wd) == IF wd = "" THEN <<>> ELSE PathComps(wd)
Under(wd, p) == IF IsAbs(p) THEN PathComps(p) ELSE Clean(WorkDir(wd) \o Split(p, "/"))
\* the executable file a path denotes
IsProgram(fs, cs) == LET r == Lookup(fs, cs, TRUE) IN r.e = "" /\ fs[r.p].t # "dir" /\ ExecMode(fs[r.p].m)
RECURSIVE EnvVal(_, _, _)
EnvVal(env, key, i) == IF i > Len(env) THEN [ok |-> FALSE, v |-> ""]
                       ELSE IF HasPrefix(env[i], key \o "=") THEN [ok |-> TRUE, v |-> DropPrefix(env[i], key \o "=")]
                       ELSE EnvVal(env, key, i + 1)
SearchDirs(env) == LET p == EnvVal(env, "PATH", 1) IN IF ~p.ok \/ p.v = "" THEN <<>> ELSE Split(p.v, ":")
RECURSIVE Search(_, _, _, _, _)
Search(fs, wd, dirs, f, i) ==
  IF i > Len(dirs) THEN [ok |-> FALSE, p |-> ""]
  ELSE LET cs == Under(wd, (IF dirs[i] = "" THEN f ELSE dirs[i] \o "/" \o f)) IN
       IF IsProgram(fs, cs) THEN [ok |-> TRUE, p |-> AbsStr(cs)] ELSE Search(fs, wd, dirs, f, i + 1)
LookPath(fs, env, wd, f) ==
  IF IndexOf(f, "/") # 0
  THEN IF IsProgram(fs, Under(wd, f)) THEN [ok |-> TRUE, p |-> IF IsAbs(f) THEN f ELSE AbsStr(Under(wd, f))] ELSE [ok |-> FALSE, p |-> ""]
  ELSE Search(fs, wd, SearchDirs(env), f, 1)
RECURSIVE LastSlash(_, _)
LastSlash(p, i) == IF i = 0 THEN 0 ELSE IF Ch(p, i) = "/" THEN i ELSE LastSlash(p, i - 1)
DirOf(p) == SubSeq(p, 1, LastSlash(p, Len(p)))
FileOf(p) == SubSeq(p, LastSlash(p, Len(p)) + 1, Len(p))
Sibling(p, old, new) == AbsStr(PathComps(DirOf(p) \o new \o DropPrefix(FileOf(p), old)))
Shebangs(fs, env, wd, f) ==
  LET g == LookPath(fs, env, wd, f) IN
  IF ~g.ok THEN [ok |-> FALSE, c |-> "", g |-> ""]
  ELSE LET c == IF HasPrefix(FileOf(g.p), "pythonw") /\ IsProgram(fs, PathComps(Sibling(g.p, "pythonw", "python")))
                THEN Sibling(g.p, "pythonw", "python") ELSE g.p
           w == IF HasPrefix(FileOf(c), "python") /\ ~HasPrefix(FileOf(c), "pythonw") /\ IsProgram(fs, PathComps(Sibling(c, "python", "pythonw")))
                THEN Sibling(c, "python", "pythonw") ELSE g.p
       IN [ok |-> TRUE, c |-> c, g |-> w]
=============================================================================
