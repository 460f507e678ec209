------------------------------ MODULE PlatDesign ------------------------------
(* Inspecting step by step: look the interpreter up, run it, look for an owner, try the interpreters of the host. *)
EXTENDS Plat, Json
CONSTANTS MaxDirs, EmitCases
VARIABLES c, pc, k, res
vars == <<c, pc, k, res>>
Reps == <<[magic |-> "M1", ver |-> <<"3", "9", "1", "final", "0">>], [magic |-> "M2", ver |-> <<"3", "10", "0", "alpha", "2">>]>>
P(n, b) == [n |-> n, k |-> b[1], rep |-> b[2]]
Beh == {<<"none", 1>>, <<"fail", 1>>, <<"says", 1>>, <<"says", 2>>}
\* the programs of the host, and of the image
Hosts == {<<P("python3.9", a), P("python3", b), P("python", d), P("pythonw3", e)>> : a \in Beh, b \in Beh \cup {<<"junk", 1>>, <<"bad64", 1>>}, d \in Beh, e \in {<<"none", 1>>, <<"says", 2>>}}
Imgs == {<<P("python3", b), P("pythonw3", e)>> : b \in {<<"none", 1>>, <<"bad64", 1>>, <<"says", 1>>, <<"says", 2>>}, e \in {<<"none", 1>>, <<"says", 1>>}}
Dirs == {d \o [j \in 1..(5 - MaxDirs) |-> 0] : d \in [1..MaxDirs -> 0..2]}
Cases == {[mode |-> "host", interp |-> n, host |-> h, img |-> <<>>, hdir |-> "/h", idir |-> "/i", reps |-> Reps, dirs |-> d] : n \in {"python3", "pythonw3"}, h \in Hosts, d \in Dirs}
   \cup {[mode |-> "image", interp |-> n, host |-> h, img |-> g, hdir |-> "/h", idir |-> "/i", reps |-> Reps, dirs |-> d] : n \in {"python3", "pythonw3"}, h \in Hosts, g \in Imgs, d \in {<<x, 1, 0, 0, 0>> : x \in 0..2}}
Init == c \in Cases /\ pc = "look" /\ k = 1 /\ res = [con |-> "", owner |-> 0, m |-> "", ok |-> FALSE, rep |-> 0]
Ps == IF c.mode = "host" THEN c.host ELSE c.img
Fail == pc' = "failed" /\ UNCHANGED <<c, k, res>>
Look == pc = "look" /\ IF Has(Ps, c.interp) THEN res' = [res EXCEPT !.con = ConsoleName(Ps, c.interp)] /\ pc' = "run" /\ UNCHANGED <<c, k>> ELSE Fail
Run == pc = "run" /\ LET i == ProgOf(Ps, res.con) IN IF Ps[i].k = "says" THEN res' = [res EXCEPT !.rep = Ps[i].rep] /\ pc' = "own" /\ UNCHANGED <<c, k>> ELSE Fail
Own == pc = "own" /\ IF k > 5 THEN Fail ELSE IF c.dirs[k] = 0 THEN k' = k + 1 /\ UNCHANGED <<c, pc, res>> ELSE res' = [res EXCEPT !.owner = c.dirs[k]] /\ pc' = "try" /\ k' = 1 /\ UNCHANGED c
Try == pc = "try" /\ LET cs == Candidates(Reps[res.rep].ver) IN
  IF c.mode = "host" THEN res' = [res EXCEPT !.m = res.con, !.ok = TRUE] /\ pc' = "done" /\ UNCHANGED <<c, k>>
  ELSE IF k > 3 THEN Fail
  ELSE LET i == ProgOf(c.host, cs[k]) IN
       IF i # 0 /\ c.host[i].k = "says" /\ Reps[c.host[i].rep].magic = Reps[res.rep].magic THEN res' = [res EXCEPT !.m = cs[k], !.ok = TRUE] /\ pc' = "done" /\ UNCHANGED <<c, k>>
       ELSE k' = k + 1 /\ UNCHANGED <<c, pc, res>>
Next == Look \/ Run \/ Own \/ Try
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Agrees == pc \in {"failed", "done"} => LET e == Expected(c) IN e.ok = (pc = "done") /\ (e.ok => e.rep = res.rep /\ e.owner = res.owner /\ e.pyc[1] = "/h/" \o res.m)
\* The bytecode is written by an interpreter of the host that writes what the described one reads.
SameMagic == pc = "done" => LET i == ProgOf(c.host, res.m) IN i # 0 /\ Reps[c.host[i].rep].magic = Reps[res.rep].magic
Ends == <>(pc \in {"failed", "done"})
Emit == (EmitCases /\ pc = "look") => PrintT("CASE " \o ToJson([mode |-> c.mode, interp |-> c.interp, host |-> c.host, img |-> c.img, dirs |-> c.dirs]))
=============================================================================
