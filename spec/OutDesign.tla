------------------------------ MODULE OutDesign ------------------------------
(* Histories of builds into one output file.  The command compares, writes a temporary file and renames it; it
   can fail or die between any two of these steps.  The file is always what some successful build left (or what the
   outside put there), and a build that changes nothing leaves it alone. *)
EXTENDS Files, Json
CONSTANTS MaxOps, Contents, EmitCases
VARIABLES file, tmp, pc, cur, last, hist
vars == <<file, tmp, pc, cur, last, hist>>
\* file: [k, c, st]; cur: what is being built; last: what the file was when the command started
NoFile == [k |-> "none", c |-> "", st |-> 0]
Init == file = NoFile /\ tmp = "" /\ pc = "idle" /\ cur = "" /\ last = NoFile /\ hist = <<>>
Op(k, c) == /\ hist' = Append(hist, [k |-> k, c |-> c])
More == pc = "idle" /\ Len(hist) < MaxOps
Start(k, c) == More /\ Op(k, c) /\ cur' = c /\ last' = file /\ tmp' = ""
Begin == \E k \in {"build", "fail", "full", "kill"}, c \in Contents : Start(k, c) /\ pc' = k /\ UNCHANGED file
Outside == More /\ \/ Op("junk", "") /\ file' = [k |-> "junk", c |-> "", st |-> Len(hist)] /\ UNCHANGED <<tmp, pc, cur, last>>
                   \/ Op("delete", "") /\ file' = NoFile /\ UNCHANGED <<tmp, pc, cur, last>>
Same == file.k = "layer" /\ file.c = cur
Finish == pc' = "idle" /\ UNCHANGED <<cur, last, hist>>
Fail == pc = "fail" /\ Finish /\ UNCHANGED <<file, tmp>>
Compare == pc \in {"build", "full", "kill"} /\ tmp = "" /\
           IF Same \/ file.k = "junk" THEN Finish /\ UNCHANGED <<file, tmp>>
           ELSE tmp' = "part" /\ UNCHANGED <<file, pc, cur, last, hist>>
Full == pc = "full" /\ tmp = "part" /\ tmp' = "" /\ Finish /\ UNCHANGED file
Write == pc \in {"build", "kill"} /\ tmp = "part" /\ tmp' = "whole" /\ UNCHANGED <<file, pc, cur, last, hist>>
Rename == pc \in {"build", "kill"} /\ tmp = "whole" /\ file' = [k |-> "layer", c |-> cur, st |-> Len(hist)] /\ tmp' = "" /\ Finish
Die == pc = "kill" /\ Finish /\ tmp' = "" /\ UNCHANGED file
Next == Begin \/ Outside \/ Fail \/ Compare \/ Full \/ Write \/ Rename \/ Die
Spec == Init /\ [][Next]_vars /\ WF_vars(Fail \/ Compare \/ Full \/ Write \/ Rename)

Id(f) == IF f = last THEN (IF f.k = "junk" THEN "junk" ELSE "old") ELSE "new"
\* What the trace specification allows is what this design does, and no more than it promises.
Allowed == pc = "idle" /\ hist # <<>> /\ hist[Len(hist)].k \in {"build", "fail", "full", "kill"} =>
   \E rc \in {0, 1} : MayBe(hist[Len(hist)].k, rc, Id(last), Id(file), last.k = "layer" /\ last.c = cur)
Untouched == [][file' # file => (pc \in {"build", "kill"} /\ tmp = "whole" /\ ~Same) \/ pc = "idle"]_vars
Ends == []<>(pc = "idle")
Emit == EmitCases /\ pc = "idle" /\ hist # <<>> /\ Len(hist) = MaxOps => PrintT("CASE " \o ToJson(hist))
=============================================================================
