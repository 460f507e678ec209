---------------------------- MODULE InspectDesign ----------------------------
(* Every small image, PATH and name: the search agrees with its meaning. *)
EXTENDS Inspect, Json
CONSTANTS MaxFiles, EmitCases
VARIABLES files, env, want, stage
vars == <<files, env, want, stage>>
Spots == {<<"b", "python3">>, <<"b", "pythonw3">>, <<"c", "python3">>, <<"c", "pythonw3">>, <<"w", "python3">>, <<"b">>, <<"c">>}
E(p, t, m, to, lab) == [c |-> p, ab |-> FALSE, t |-> t, m |-> m, to |-> to, lab |-> lab]
Makes(p) == {E(p, "reg", "755", <<>>, FALSE), E(p, "reg", "644", <<>>, FALSE), E(p, "dir", "755", <<>>, FALSE), E(p, "sym", "777", <<"b", "python3">>, TRUE), E(p, "sym", "777", <<"pythonw3">>, FALSE), E(p, "sym", "777", <<"c">>, FALSE)}
Init == files = <<>> /\ env = <<>> /\ want = "" /\ stage = 0
Add == stage = 0 /\ Len(files) < MaxFiles /\ \E p \in Spots : \E e \in Makes(p) : files' = Append(files, e) /\ UNCHANGED <<env, want, stage>>
Ask == stage = 0 /\ stage' = 1 /\ env' \in {<<"PATH=/b:/c">>, <<"PATH=/c:b">>, <<"X=1", "PATH=:/b", "PATH=/c">>, <<>>, <<"PATH=">>} /\ want' \in {"python3", "pythonw3", "/c/python3", "./python3"} /\ UNCHANGED files
Next == Add \/ Ask
Spec == Init /\ [][Next]_vars
FS == TLCEval(Unpack(EmptyFS, <<files>>))
Sound == stage = 1 => LET u == FS IN u.ok =>
   LET r == LookPath(u.fs, env, "/w", want) s == Shebangs(u.fs, env, "/w", want) IN
   /\ r.ok => IsProgram(u.fs, PathComps(r.p))
   /\ s.ok = r.ok
   /\ s.ok => IsProgram(u.fs, PathComps(s.c)) /\ IsProgram(u.fs, PathComps(s.g))
   /\ (r.ok /\ ~HasPrefix(FileOf(r.p), "pythonw")) => s.c = r.p
   /\ (r.ok /\ IndexOf(want, "/") = 0) =>
        \A i \in 1..Len(SearchDirs(env)) : IsProgram(u.fs, Under("/w", SearchDirs(env)[i] \o "/" \o want)) => \E j \in 1..i : AbsStr(Under("/w", (IF SearchDirs(env)[j] = "" THEN want ELSE SearchDirs(env)[j] \o "/" \o want))) = r.p
   /\ (SearchDirs(env) = <<>> /\ IndexOf(want, "/") = 0) => ~r.ok
Emit == EmitCases /\ stage = 1 => PrintT("CASE " \o ToJson([files |-> files, env |-> env, want |-> want]))
=============================================================================
